#!/usr/bin/env python3
"""Emits Rust types under test (fixed ones and ones drawn from a grammar by --seed) with their schemas."""
import argparse, json, os, random, re


def rs(s):
    """A Rust string literal."""
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def bare(name):
    """An identifier's name without the raw prefix."""
    return name[2:] if name.startswith("r#") else name


def unrs(lit):
    return re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), lit[1:-1])


class T:
    """A type expression with what the grammar must know about it."""
    def __init__(self, e, **k):
        self.e = e
        self.nullable = k.get("nullable", False)   # may encode as null or undefined
        self.key = k.get("key", False)             # Ord + Hash, distinct values encode differently
        self.default = k.get("default", True)      # Rust Default
        self.asmap = k.get("asmap", False)         # EncodeAsMap
        self.lossless = k.get("lossless", True)
        self.bytes = k.get("bytes", False)         # contains Vec<u8> or [u8; N]
        self.serde = k.get("serde", True)          # serde derive handles it
        self.decodable = k.get("decodable", True)
        self.names = k.get("names", ())            # keys a map of this type may have
        self.minimal = k.get("minimal", True)      # usable below an optional field


SCALARS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "bool", "char", "String"]
KEY_SCALARS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "char", "String", "bool"]
FIELD_NAMES = ["a", "b", "c", "foo", "bar", "id", "x1", "value", "data", "nested", "flag", "items", "longer_name", "z",
               "field_with_a_name_of_24b", "another_field_name_that_is_long", "key", "kind", "count", "aa", "ab", "ba",
               # Raw identifiers, whose name on the wire goes without the prefix, and names the macros use themselves.
               "r#type", "r#in", "r#match", "r#fn", "r#ref", "v", "it", "fields", "map", "array", "inner", "tag", "result", "__a0", "__a1"]
OWN_NAMES = {"v", "it", "fields", "map", "array", "inner", "tag", "result", "__a0", "__a1", "key", "value", "items", "None", "Some", "Ok", "Err", "Map", "Value", "Default"}
EVERY = {
    "every": ("external", [("unit", 0, 0), ("newtype", 0, 0), ("newtype", 0, 0), ("tuple", 0, 0), ("tuple", 0, 1), ("struct", 0, 0), ("struct", 0, 1),
                           ("struct", 1, 0), ("struct", 1, 1), ("unit_struct", 0, 0), ("unit_struct", 0, 1), ("embed", 0, 0)]),
    "every-skipped": ("external", [("newtype", 0, 0)] + [(k, 0, 0, "skip") for k in ("unit", "newtype", "tuple", "struct", "unit_struct")]),
    "every-tagged": ("tagged", [("newtype", 0, 0, "skip"), ("struct", 0, 0, "skip"), ("unit", 0, 0), ("unit", 0, 1), ("newtype", 0, 0), ("struct", 0, 0), ("struct", 0, 1)]),
}
VARIANT_NAMES = ["A", "B", "C", "One", "Two", "V0", "V1", "Ok", "Other", "LongVariantNameOfSomeLength", "X", "Q9", "r#type", "r#as",
                 "None", "Some", "Err", "Map", "Value", "Default", "r#enum"]
TEXTS = ["", "a", "b", "A", "z", "aa", "0", "v", "t", "type", "foo", "bar", "ren", "different", "Name", "kebab-case", "ünï",
         "\u20ac", "\U0001f600", "exactly_twenty_three_by", "exactly_twenty_four_byte", "\u0000", "a b", "V", "One", "Two"]
INTS = [0, 1, 2, 3, 10, 22, 23, 24, 25, 42, 255, 256, 1000, 65535, 65536, 4294967295, 4294967296, 9223372036854775807,
        9223372036854775808, 18446744073709551615]
# Keys that lie close together in some order or other.
DENSE_INTS = [0, 1, 9, 10, 22, 23, 24, 100, 127, 128, 255, 256, 257, 512, 32767, 32768, 65535, 65536, 16777216, 2147483647, 2147483648,
              4294967295, 4294967296, 4294967297, 1 << 53, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
DENSE_TEXTS = ["", "a", "b", "z", "A", "Z", "aa", "ab", "ba", "\u0000", "\u007f", "\u00e9", "e", "10", "9", "a\u0000", "\uffff", "\U00010000",
               "zz", "exactly_twenty_three_by", "exactly_twenty_four_byte", "Exactly_twenty_four_byte", "\u00fcn\u00ef"]


class Gen:
    def __init__(self, seed, mode):
        self.r = random.Random("%s-%d" % (mode, seed))
        self.mode = mode            # core | serde | both
        self.ns = "serde" if mode == "serde" else "cbor"
        self.out = []
        self.regs = []
        self.n = 0
        self.structs = []           # T of generated structs
        self.enums = []             # T of generated enums
        self.count = dict(structs=0, enums=0, builtin=0)
        self.feats, self.pending = set(), []
        self.odd = []               # what is odd about the surroundings of the next type
        self.margs = None           # type arguments of the macro that makes the next type
        self.dense = False          # the next type gets all its keys from the dense pools

    # ---- type expressions ------------------------------------------------------------------------
    def chance(self, p):
        return self.r.random() < p

    def scalar(self):
        return T(self.r.choice(SCALARS), key=True)

    def key_type(self, depth=1):
        k = self.r.random()
        if k < 0.62 or depth == 0:
            return T(self.r.choice(KEY_SCALARS), key=True)
        if k < 0.72 and self.mode != "both":
            return T("Vec<u8>", key=True, bytes=True)
        if k < 0.78 and self.mode != "both":
            return T("[u8; %d]" % self.r.choice([0, 1, 4, 8]), key=True, bytes=True)
        if k < 0.86:
            ts = [self.key_type(depth - 1) for _ in range(self.r.randint(1, 3))]
            return T("(%s,)" % ", ".join(t.e for t in ts), key=True, bytes=any(t.bytes for t in ts))
        if k < 0.92:
            t = self.key_type(depth - 1)
            if t.e == "u8":
                t = T("u16", key=True)
            return T("Vec<%s>" % t.e, key=True, bytes=t.bytes)
        if k < 0.96:
            t = self.key_type(depth - 1)
            return T("Option<%s>" % t.e, key=True, bytes=t.bytes, nullable=True)
        ks = [e for e in self.enums + self.structs if e.key]
        return self.r.choice(ks) if ks else T("u32", key=True)

    def ty(self, depth=3, decodable=True):
        """Any type; derived ones included."""
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.36:
            return self.scalar()
        if k < 0.42:
            return T("Vec<u8>", key=True, bytes=True) if self.mode != "both" else T("Vec<u16>", key=True)
        if k < 0.46:
            n = r.choice([0, 1, 2, 3, 4, 8, 16, 20, 32])
            return T("[u8; %d]" % n, key=True, bytes=True) if self.mode != "both" else T("[i16; %d]" % n, key=True)
        if self.mode == "serde" and k < 0.475:
            return T("Buf", key=True)
        if k < 0.49:
            return T("()", nullable=True, key=False)
        if k < 0.51 and self.mode == "core":
            return T("Value", nullable=True, default=False, lossless=False, serde=False)
        if k < 0.58:
            t = self.ty(depth - 1)
            if t.nullable and not self.chance(0.15):
                t = self.scalar()
            return T("Option<%s>" % t.e, nullable=True, lossless=t.lossless and not t.nullable, bytes=t.bytes, serde=t.serde)
        if k < 0.66:
            t = self.ty(depth - 1)
            if t.e == "u8" and self.mode == "both":
                t = T("u16")
            return T("Vec<%s>" % t.e, lossless=t.lossless, bytes=t.bytes or t.e == "u8", serde=t.serde)
        if k < 0.69:
            t = self.ty(depth - 1)
            if t.e == "u8" and self.mode == "both":
                t = T("u16")
            n = r.choice([0, 1, 2, 3, 4, 7])
            return T("[%s; %d]" % (t.e, n), lossless=t.lossless, default=t.default, bytes=t.bytes or t.e == "u8", serde=t.serde)
        if k < 0.75:
            ts = [self.ty(depth - 1) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7, 10] if depth > 1 else [1, 2, 3]))]
            return T("(%s,)" % ", ".join(t.e for t in ts), lossless=all(t.lossless for t in ts), default=all(t.default for t in ts),
                     bytes=any(t.bytes for t in ts), serde=all(t.serde for t in ts))
        if k < 0.84:
            kt, t = self.key_type(), self.ty(depth - 1)
            return T("%s<%s, %s>" % (r.choice(["BTreeMap", "HashMap"]), kt.e, t.e), asmap=True, lossless=t.lossless,
                     bytes=kt.bytes or t.bytes, serde=t.serde)
        if k < 0.88:
            kt = self.key_type()
            return T("%s<%s>" % (r.choice(["BTreeSet", "HashSet"] if self.mode != "both" else ["BTreeSet"]), kt.e), bytes=kt.bytes)
        pool = [t for t in self.structs + self.enums if t.decodable or not decodable]
        if pool:
            return r.choice(pool[-25:])
        return self.scalar()

    # ---- keys ---------------------------------------------------------------------------------------
    def rename(self, used):
        for _ in range(50):
            if self.mode == "core" and self.chance(0.5 if self.dense else 0.35):
                v = self.r.choice(DENSE_INTS if self.dense else INTS)
                k, attr, m = ("i", v), "rename = %d" % v, "M::U(%d)" % v
            else:
                v = self.r.choice(DENSE_TEXTS if self.dense else TEXTS)
                k, attr, m = ("s", v), "rename = %s" % rs(v), "M::t(%s)" % rs(v)
            if k not in used:
                used.add(k)
                return attr, m
        raise AssertionError("keys exhausted")

    # ---- fields -------------------------------------------------------------------------------------
    CODECS = [("u64", "dec", False), ("u64", "hex", True), ("bool", "bit", True), ("Option<u32>", "plus", True),
              ("BTreeMap<u8, String>", "pairs", True), ("Vec<u8>", "latin", True)]

    def fields(self, named, array, n, used, need_default=True, plain=False, always=False, key=False):
        """Returns a list of dicts. `used`: keys taken. `always`: one field must always be written."""
        fs = []
        names = self.r.sample(FIELD_NAMES, n) if named else [str(i) for i in range(n)]
        for i in range(n):
            f = dict(name=names[i], attrs=[], mods=[], lossless=True)
            t = self.key_type(1) if key else self.ty(2)
            while need_default and not t.default or not t.decodable:
                t = self.ty(1)
            allow = not plain and self.mode == "core" and not key
            if named:
                f["key"] = "M::t(%s)" % rs(bare(names[i]))
                if allow and self.chance(0.95 if self.dense else 0.3):
                    a, m = self.rename(used)
                    f["attrs"].append(a)
                    f["key"] = m
                else:
                    if ("s", bare(names[i])) in used:
                        # Taken by a rename: rename this one.
                        a, m = self.rename(used)
                        f["attrs"].append(a)
                        f["key"] = m
                    used.add(("s", bare(names[i])))
            else:
                f["key"] = "M::U(0)"
            restorable = t.lossless and t.minimal
            if self.mode == "serde" and named and not key:
                self.serde_field(f, t, used)
            if allow and t.default and self.chance(0.1):
                f["attrs"].append("skip")
                f["mods"].append("skip")
                f["lossless"] = True
            else:
                codec = None
                k = self.r.random()
                if allow and k < 0.16:
                    ty, codec, ok = self.r.choice(self.CODECS)
                    t = T(ty, default=True)
                    f["attrs"] += ['serialize_with = "codecs::%s_ser"' % codec, 'deserialize_with = "codecs::%s_de"' % codec]
                    restorable = True
                elif allow and k < 0.18:
                    t, codec, ok = T("u64"), "ref", True
                    f["attrs"].append('serialize_with = "codecs::ref_ser"')
                elif allow and k < 0.20:
                    t, codec, ok = T("u32", lossless=False), "odd", True
                    f["attrs"].append('deserialize_with = "codecs::odd_de"')
                if codec:
                    f["mods"].append("codec:" + codec)
                if allow and named and not array and (restorable or self.chance(0.2)) and self.chance(0.45):
                    if always and i == 0:
                        pass
                    else:
                        f["attrs"].append("optional")
                        f["mods"].append("optional")
                        if codec is None and self.chance(0.35):
                            p = None
                            if t.e.startswith("Option<"):
                                p, m = "Option::is_none", "|v| *v == MV::Opt(None)"
                            elif t.e.startswith("Vec<"):
                                p, m = "Vec::is_empty", "|v| matches!(v, MV::Seq(s) if s.is_empty()) || matches!(v, MV::Bytes(s) if s.is_empty())"
                            elif t.e == "String":
                                p, m = "String::is_empty", "|v| v.str().is_empty()"
                            elif t.e == "u64" and self.chance(0.3):
                                p, m = "codecs::is_seven", "|v| *v == MV::Int(7)"
                                f["lossless"] = False
                            elif t.e in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
                                p, m = "codecs::is_default", "|v| *v == MV::Int(0)"
                            elif t.e == "bool":
                                p, m = "codecs::is_default", "|v| *v == MV::Bool(false)"
                            if p:
                                f["attrs"].append('skip_serializing_if = "%s"' % p)
                                f["mods"].append("skip_if:" + m)
                        elif codec == "dec" and self.chance(0.4):
                            # Left out although the custom decoder has no default: the type declares the loss.
                            f["attrs"].append('skip_serializing_if = "codecs::is_default"')
                            f["mods"].append("skip_if:|v| *v == MV::Int(0)")
                            f["lossless"] = False
                f["lossless"] = f["lossless"] and t.lossless
            f["t"] = t
            fs.append(f)
        return fs

    def serde_field(self, f, t, used):
        if self.chance(0.2) and not f["attrs"]:
            a, f["key"] = self.rename(used)
            f["attrs"].append(a)
        if self.chance(0.08):
            f["attrs"].append("skip")
            f["mods"].append("skip")
        elif self.chance(0.2):
            f["attrs"].append("default")
            f["mods"].append("sdefault")
            m = None
            if self.chance(0.6):
                if t.e.startswith("Option<"):
                    p, m = "Option::is_none", "|v| *v == MV::Opt(None)"
                elif t.e.startswith("Vec<"):
                    p, m = "Vec::is_empty", "|v| matches!(v, MV::Seq(s) if s.is_empty()) || matches!(v, MV::Bytes(s) if s.is_empty())"
                elif t.e == "String":
                    p, m = "String::is_empty", "|v| v.str().is_empty()"
                elif t.e in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
                    p, m = "preds::is_default", "|v| *v == MV::Int(0)"
            if m:
                f["attrs"].append('skip_serializing_if = "%s"' % p)
                f["mods"].append("optional")
                f["mods"].append("skip_if:" + m)

    def field_code(self, f):
        t = f["t"]
        self.pending.append([a.split(" =")[0] + ("-int" if re.match(r"rename = \d", a) else "") for a in f["attrs"]])
        s = "{ let mut f = Field::new(%s, %s, <%s as Modeled>::ty);" % (rs(bare(f["name"])), f["key"], t.e)
        if t.default:
            s += " f.default = Some(|| <%s as Default>::default().model());" % t.e
        for m in f["mods"]:
            if m.startswith("codec:"):
                s += " f.codec = Some(codecs::m_%s());" % m[6:]
            elif m.startswith("skip_if:"):
                s += " f.skip_if = Some(%s);" % m[8:]
            else:
                s += " f.%s = true;" % m
        return s + " f }"

    def field_attr(self, f):
        if not f["attrs"]:
            return ""
        a = list(f["attrs"])
        # One attribute or several: both spellings are accepted.
        if len(a) > 1 and self.chance(0.3):
            return "".join("#[%s(%s)] " % (self.ns, x) for x in a)
        self.r.shuffle(a)
        return "#[%s(%s)] " % (self.ns, ", ".join(a))

    # ---- structs ------------------------------------------------------------------------------------
    def derives(self, key, default):
        d = []
        if self.mode in ("core", "both"):
            d += ["oasis_cbor::Encode", "oasis_cbor::Decode"]
        if self.mode in ("serde", "both"):
            d += ["serde::Serialize", "serde::Deserialize"]
        if key:
            d += ["PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]
        if default:
            d.append("Default")
        self.r.shuffle(d)
        return "#[derive(%s)]\n" % ", ".join(d)

    def struct(self, shape=None, key=False):
        self.n += 1
        self.count["structs"] += 1
        name = "S%d" % self.n
        r = self.r
        plain = self.mode != "core"
        self.dense = shape == "dense" or shape is None and not plain and self.chance(0.06)
        if self.dense:
            shape = "map"
        # A trailing sign: whether unknown entries are allowed.
        unknown = None
        insist = bool(shape) and shape[-1] == "!"
        if insist:
            shape = shape[:-1]
        if shape and shape[-1] in "+-":
            shape, unknown = shape[:-1], shape[-1] == "+"
        if shape is None:
            shape = r.choices(["map", "tuple", "newtype", "transparent", "as_array", "unit", "tuple0"],
                              [56, 14, 8, 0 if self.mode == "both" else 9, 0 if plain else 9, 4, 1])[0]
        n = {"map": r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8]), "tuple": r.randint(2, 6), "newtype": 1, "transparent": 1,
             "as_array": r.randint(0, 5), "unit": 0, "tuple0": 0}[shape]
        if self.dense:
            n = r.randint(7, 12)
        if unknown is not None:
            n = max(n, 2)
        attrs = []
        named = shape in ("map", "as_array")
        allow_unknown = not plain and shape != "transparent" and (self.chance(0.25) if unknown is None else unknown)
        deny = self.mode == "serde" and shape == "map" and self.chance(0.3)
        no_default = insist or not plain and self.chance(0.15) and shape != "unit"
        custom_default = not plain and not no_default and not key and shape in ("map", "tuple") and n > 0 and self.chance(0.12)
        always = no_default or custom_default
        if shape == "map" and always and n == 0:
            no_default = custom_default = always = False
        used = set()
        fs = self.fields(named, shape != "map", n, used, need_default=not no_default, plain=plain or shape == "transparent",
                         always=always, key=key)
        self.dense = False
        if always and shape == "map" and "skip" in fs[0]["mods"]:
            fs[0]["mods"].remove("skip")
            fs[0]["attrs"].remove("skip")
        if shape == "transparent":
            attrs.append("transparent")
            if fs[0]["t"].nullable and no_default:
                no_default = False
                if not fs[0]["t"].default:
                    fs[0]["t"] = T("u8", key=True)
        if shape == "as_array":
            attrs.append("as_array")
        if allow_unknown:
            attrs.append("allow_unknown")
        if self.mode == "serde":
            allow_unknown = not deny
            if deny:
                attrs.append("deny_unknown_fields")
        if no_default:
            attrs.append("no_default")
        elif not plain and self.chance(0.05):
            attrs.append("with_default")
        if shape == "unit" and not plain and self.chance(0.2):
            attrs.append(r.choice(["as_array", "with_default"]) if "with_default" not in attrs else "as_array")
        r.shuffle(attrs)
        self.margs = [] if self.chance(0.1) else None
        src = self.derives(key, not custom_default and not no_default)
        if attrs:
            src += "#[%s(%s)]\n" % (self.ns, ", ".join(attrs))
        if named:
            body = " {\n" + "".join("    %spub %s: %s,\n" % (self.field_attr(f), f["name"], self.te(f)) for f in fs) + "}"
        elif shape == "unit":
            body = ";"
        else:
            body = "(" + ", ".join("%spub %s" % (self.field_attr(f), self.te(f)) for f in fs) + ");"
        src += "pub struct %s%s\n" % (name, body)
        if custom_default:
            vals = []
            for f in fs:
                vals.append(self.some_value(f))
            src += "impl Default for %s {\n    fn default() -> Self { %s { %s } }\n}\n" % (
                name, name, ", ".join("%s: %s" % (f["name"], v) for f, v in zip(fs, vals)))
        mshape = {"map": "Map", "as_array": "Array", "tuple": "Array", "newtype": "Array", "tuple0": "Array",
                  "transparent": "Transparent", "unit": "Unit"}[shape]
        lossless = all(f["lossless"] for f in fs)
        src += self.modeled(name, "Ty::Struct", "Struct", "Struct { name: %s, shape: Shape::%s, allow_unknown: %s, default: %s, fields: vec![%s] }" % (
            rs(name), mshape, str(allow_unknown).lower(),
            "None" if no_default else "Some(|| <%s as Default>::default().model())" % name,
            ", ".join(self.field_code(f) for f in fs)),
            "let f = v.fields(); let _ = f; %s { %s }" % (name, ", ".join("%s: Modeled::build(&f[%d])" % (f["name"], i) for i, f in enumerate(fs))),
            "MV::Struct(vec![%s])" % ", ".join("self.%s.model()" % f["name"] for f in fs))
        nullable = shape == "unit" or shape == "transparent" and fs[0]["t"].nullable
        t = T(name, nullable=nullable, key=key, default=not no_default, asmap=shape == "map", lossless=lossless,
              bytes=any(f["t"].bytes for f in fs), serde=all(f["t"].serde for f in fs), names=used,
              minimal=True)
        self.structs.append(t)
        self.emit(name, src, lossless, asmap=shape == "map")
        return t

    def some_value(self, f):
        e = f["t"].e
        if e in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128"):
            return str(self.r.choice([1, 5, 7, 100]))
        if e == "bool":
            return "true"
        if e == "String":
            return '"custom".to_string()'
        if e == "char":
            return "'d'"
        return "Default::default()"

    def note(self, definition):
        """Which combinations of container and attributes this definition brings."""
        m = re.search(r"shape: Shape::(\w+), allow_unknown: (\w+), default: (\w+)", definition)
        if m:
            for ks in self.pending:
                for x in ks + ["any"]:
                    self.feats.add((m[1], m[3], x))
                    self.feats.update((m[1], m[3], x, y) for y in ks if x < y)
        else:
            style = "tagged" if "tag: Some" in definition else "untagged" if "untagged: true" in definition else "external"
            for v in definition.split("Variant { name")[1:]:
                k = re.search(r"kind: VKind::(\w+)", v)[1]
                fs = re.findall(r"\bf\.(codec|skip_if|optional|skip|sdefault)\b", v)
                self.feats.update((style, k, x) for x in ["any"] + fs + re.findall(r"(skip|embed|missing|allow_unknown): true", v.split("fields:")[0]))
        self.pending = []

    def modeled(self, name, ctor, def_ty, definition, build, abs_, generics=("", "")):
        self.note(definition)
        return ("impl%s Modeled for %s%s {\n    fn ty() -> Ty { %s(memo::<Self, %s>(|| %s)) }\n"
                "    fn build(v: &MV) -> Self { %s }\n    fn model(&self) -> MV { %s }\n}\n") % (
                    generics[0], name, generics[1], ctor, def_ty, definition, build, abs_)

    # ---- surroundings --------------------------------------------------------------------------------
    SHADOW = ["type Result<T> = std::result::Result<T, ()>;", "pub struct SimpleValue;", "pub enum DecodeError {}", "pub trait Encode {}",
              "pub trait Decode {}", "pub trait EncodeAsMap {}", "mod values {}", "mod macros {}", "mod cbor {}", "pub enum Error {}",
              "pub fn fields() {}", "pub fn it() {}", "pub fn value() {}", "pub struct Map; pub struct Array;", "pub trait Iterator {}", "type Vec2 = u8;"]

    def te(self, f):
        """The field's type in the definition: within a macro it may be an argument."""
        if self.margs is None or not self.chance(0.5):
            return f["t"].e
        self.margs.append(f["t"].e)
        return "$t%d" % len(self.margs)

    def surround(self, name, src):
        """Puts the definition into a place where the names around it differ."""
        cut = src.find("\nimpl") + 1
        d, rest = src[:cut], src[cut:]
        if self.margs is not None:
            kind = "struct" if "pub struct " in d else "enum"
            d = d.replace("pub %s %s" % (kind, name), "$vis %s $name" % kind, 1)
            params = "".join(", $t%d:ty" % (i + 1) for i in range(len(self.margs)))
            args = "".join(", " + a for a in self.margs)
            self.count["by_macro"] = self.count.get("by_macro", 0) + 1
            self.odd.append("made by a macro")
            d = "macro_rules! def_%s { ($vis:vis $name:ident%s) => {\n%s} }\ndef_%s!(pub %s%s);\n" % (name, params, d, name, name, args)
        elif self.mode == "core" and self.chance(0.5 if '"codecs::' in d else 0.2):
            self.count["shadowed"] = self.count.get("shadowed", 0) + 1
            self.odd.append("library names taken")
            names = self.r.sample(self.SHADOW, self.r.randint(1, len(self.SHADOW)))
            if '"codecs::' in d and self.chance(0.7):
                # The field codecs come from a module called like one of the library's.
                m = self.r.choice(["macros", "values", "reader", "writer", "serde", "decode", "encode"])
                names = [n for n in names if " %s " % m not in n] + ["mod %s { pub use super::codecs::*; }" % m]
                d = d.replace('"codecs::', '"%s::' % m)
            d = "mod in_%s {\n    use super::*;\n    %s\n%s}\npub use in_%s::%s;\n" % (
                name, " ".join(names), d.replace("oasis_cbor::", "::oasis_cbor::"), name, name)
        return d + rest

    def emit(self, name, src, lossless, asmap=False, decodable=True, expr=None):
        expr = expr or name
        cut = src.find("\nimpl")
        words = set(re.findall(r"(?:r#)?\w+", re.sub(r'"[^"]*"', "", src[:cut if cut > 0 else None])))
        if any(w.startswith("r#") for w in words):
            self.odd.append("raw identifiers")
        if words & OWN_NAMES:
            self.odd.append("the macros' own names")
        self.out.append(self.surround(name, src))
        d = src[:cut if cut > 0 else None]
        for i, a in reversed(list(enumerate(self.margs or []))):
            d = d.replace("$t%d" % (i + 1), a)
        self.register(expr, expr, d, lossless, asmap, decodable)
        self.odd = []

    def register(self, expr, name, definition, lossless, asmap, decodable):
        fn = dict(core="info" if decodable else "enc_only", serde="info", both="both")[self.mode]
        if self.mode != "core":
            asmap = False
        self.regs.append("    v.push(%s::<%s>(%s, %s, %s)%s%s);" % (
            fn, expr, rs(name), rs(definition), str(lossless).lower(),
            ".map::<%s>()" % expr if asmap else "", ".odd(&[%s])" % ", ".join(map(rs, self.odd)) if self.odd and self.mode == "core" else ""))

    def discr_expr(self, d, repr_):
        """The discriminant, written in one of the ways that leave its value alone."""
        r = self.r
        if repr_ == "u8" and 32 < d < 127 and chr(d).isalnum() and self.chance(0.5):
            return r.choice(["b'%c'", "'%c' as u8"]) % d
        suffix = repr_ if repr_ and (not -2**31 <= d < 2**31 or self.chance(0.3)) else ""
        if suffix and self.chance(0.3):
            suffix = "_" + suffix
        how = r.random()
        if d >= 0 and how < 0.15:
            return "0x%x%s" % (d, suffix if not suffix or suffix[0] == "_" else "_" + suffix)
        if d > 1 and how < 0.25 and not suffix:
            a = r.randint(0, min(d, 100))
            return "%d + %d" % (d - a, a)
        if d > 0 and how < 0.4 and not suffix and d & (d - 1) == 0 and d < 2**31:
            return "1 << %d" % (d.bit_length() - 1)
        if how < 0.45:
            return "(%d%s)" % (d, suffix)
        return "%d%s" % (d, suffix)

    # ---- enums --------------------------------------------------------------------------------------
    def enum(self, style=None, key=False):
        forced_guest = style == "host"
        if forced_guest:
            style = "external"
        # One variant of every form: kind, as an array, unknown entries allowed.
        forms = None
        if style in EVERY:
            forms, style = list(EVERY[style][1]), EVERY[style][0]
            self.r.shuffle(forms)
        self.n += 1
        self.count["enums"] += 1
        name = "E%d" % self.n
        r = self.r
        plain = self.mode != "core"
        self.dense = style == "dense" or style is None and not plain and self.chance(0.06)
        if self.dense:
            style = r.choice(["external", "units", "tagged"])
        style = style or r.choices(["external", "units", "tagged", "untagged"], [60, 18, 0 if plain else 16, 0 if plain else 6])[0]
        # An enum whose discriminants run over the sizes integers come in.
        many_discr = style == "discr"
        if key or many_discr:
            style = "units"
        used = set()
        tag_used = set()
        attrs = []
        tag = None
        if style == "tagged":
            a, m = self.rename(tag_used)
            attrs.append(a.replace("rename", "tag"))
            tag = m
        if style == "untagged":
            attrs.append("untagged")
        vs = []
        n = len(forms) if forms else r.randint(10, 14) if many_discr else r.choice([1, 2, 3, 3, 4, 5, 6])
        vnames = r.sample(VARIANT_NAMES, n)
        discr = style == "units" and not plain and (many_discr or self.chance(0.5))
        repr_, lo, hi = None, 0, 0
        if discr and self.chance(0.4):
            repr_ = r.choice(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"])
            w = int(repr_[1:])
            lo, hi = (0, 2**w - 1) if repr_[0] == "u" else (-2**(w - 1), 2**(w - 1) - 1)
        deny = self.mode == "serde" and style == "external" and self.chance(0.2)
        if deny:
            attrs.append("deny_unknown_fields")
        have_missing = False
        names = set()
        assigned, next_discr = set(), 0
        # An enum to embed, some of whose keys this one takes for variants of its own.
        guest, at = None, -1
        pool = [e for e in self.enums if getattr(e, "embeddable", False)]
        if pool and not plain and style == "external" and (forced_guest or self.chance(0.2)):
            guest, at = r.choice(pool), r.randrange(n)
        for i in range(n):
            v = dict(name=vnames[i], attrs=[], fields=[], mods=[], lossless=True, discr=None)
            if style == "units":
                kind = "unit"
            elif style == "tagged":
                kind = r.choices(["unit", "struct", "newtype"], [20, 55, 25])[0]
            else:
                kind = r.choices(["unit", "newtype", "tuple", "struct", "embed", "unit_struct"],
                                 [28, 26, 16, 30, 0 if plain or style == "untagged" else 12, 0 if plain else 5])[0]
            if guest and i == at:
                kind = "embed"
            form = forms[i] if forms else None
            if form:
                kind = form[0]
            if kind == "embed" and not pool:
                kind = "newtype"
            shadow = []
            if guest and kind != "embed":
                shadow = [(gk, ge) for gk, ge in guest.entries if (gk[0][0], gk[0][1]) not in used]
            mkey = "M::t(%s)" % rs(bare(vnames[i]))
            if shadow and self.chance(0.6):
                (k, mkey), unit = r.choice(shadow)
                used.add(k)
                if k != ("s", bare(vnames[i])):
                    v["attrs"].append("rename = %s" % (rs(k[1]) if k[0] == "s" else k[1]))
                if self.chance(0.8):
                    kind = kind if form else "unit" if unit else r.choice(["newtype", "tuple", "struct", "unit_struct"])
            elif (not plain or self.mode == "serde") and self.chance(0.9 if self.dense else 0.35):
                a, mkey = self.rename(used)
                v["attrs"].append(a)
            else:
                if ("s", bare(vnames[i])) in used:
                    a, mkey = self.rename(used)
                    v["attrs"].append(a)
                used.add(("s", bare(vnames[i])))
            skip = len(form) > 3 if form else not plain and n > 1 and kind != "embed" and self.chance(0.08)
            if discr and not skip and self.chance(0.9 if many_discr else 0.6):
                dpool = [0, 1, 2, 3, 5, 10, 23, 24, 100, 255, 256, 70000, -1, -2, -24, -25, -1000,
                         127, 128, -128, -129, 32767, 32768, -32768, -32769, 65535, 65536, 1000000, 2147483647, -2147483648]
                dpool = r.sample(dpool, len(dpool))
                if repr_:
                    dpool = r.sample([2**32, 2**63 - n, 2**64 - n, -2**63, -2**32, 2**31 - n, 2**15 - n, 2**16 - n, 255 - n, 128 - n, 97], 11) + dpool
                    dpool = [x for x in dpool if lo <= x and x + n - i - 1 <= hi]
                for d in dpool + [lo + 20 * k for k in range(1, 12)] if repr_ else dpool + [123456 + i]:
                    # Neither it nor the implicit ones after it may collide with those before.
                    if ("i", d) not in used and not assigned & set(range(d, d + n - i)):
                        break
                next_discr = d
                used.add(("i", d))
                v["discr"] = d
                mkey = "M::int(%d)" % d
            assigned.add(next_discr)
            next_discr += 1
            fs = []
            mk = {"unit": "Unit", "newtype": "Newtype", "tuple": "Array", "struct": "Map", "embed": "Newtype", "unit_struct": "UnitStruct"}[kind]
            if kind == "unit" and style == "tagged":
                mk = "UnitStruct"
            if kind == "unit_struct":
                v["attrs"].append("as_struct")
            if kind in ("unit", "unit_struct") and style not in ("units",) and mk == "UnitStruct" and (form[2] if form else self.chance(0.25)):
                v["attrs"].append("allow_unknown")
                v["mods"].append("allow_unknown: true")
            if kind == "newtype":
                if style == "tagged":
                    maps = [s for s in self.structs if s.asmap and s.default and not (s.names & tag_used)][-15:]
                    if self.chance(0.5):
                        # An enum that is always a map, or a map.
                        maps = [e for e in self.enums if e.asmap and e.decodable and not (e.names & (tag_used | {("any", 0)}))][-15:] or maps
                    if self.chance(0.25):
                        kt, vt = ("String", self.ty(1)) if list(tag_used)[0][0] == "i" else (r.choice(["u8", "i32", "u64", "Vec<u8>"]), self.ty(1))
                        maps = [T("%s<%s, %s>" % (r.choice(["BTreeMap", "HashMap"]), kt, vt.e), lossless=vt.lossless, bytes=vt.bytes or kt == "Vec<u8>", serde=vt.serde)]
                    t = r.choice(maps) if maps else None
                    if t is None:
                        kind, mk = "struct", "Map"
                    else:
                        fs = [dict(name="0", key="M::U(0)", attrs=[], mods=[], lossless=t.lossless, t=t)]
                else:
                    t = self.ty(2)
                    while not t.default or not t.decodable:
                        t = self.ty(1)
                    fs = [dict(name="0", key="M::U(0)", attrs=[], mods=[], lossless=t.lossless, t=t)]
            if kind == "embed":
                t = guest if guest and i == at else r.choice(pool)
                v["attrs"].append("embed")
                v["mods"].append("embed: true")
                fs = [dict(name="0", key="M::U(0)", attrs=[], mods=[], lossless=False, t=t)]
            if kind == "tuple":
                fs = self.fields(False, True, r.randint(2, 4), set(), plain=plain)
                if form[2] if form else not plain and self.chance(0.2):
                    v["attrs"].append("allow_unknown")
                    v["mods"].append("allow_unknown: true")
            if kind == "struct":
                as_array = form[1] if form else not plain and style != "tagged" and self.chance(0.15)
                taken = set(tag_used)
                fs = self.fields(True, as_array, r.randint(3, 8) if self.dense else r.randint(1 if form else 0, 4), taken, plain=plain)
                names |= taken
                if style == "tagged":
                    # A field must not be named like the tag.
                    for f in fs:
                        for kk, vv in tag_used:
                            if kk == "s" and bare(f["name"]) == vv and not any(a.startswith("rename") for a in f["attrs"]):
                                raise AssertionError("tag collides")
                if as_array:
                    v["attrs"].append("as_array")
                    mk = "Array"
                if form[2] if form else not plain and self.chance(0.2):
                    v["attrs"].append("allow_unknown")
                    v["mods"].append("allow_unknown: true")
            if skip:
                v["attrs"].append("skip")
                v["mods"].append("skip: true")
                v["lossless"] = False
                v["skipped"] = True
            elif style == "tagged" and not have_missing and self.chance(0.3):
                v["attrs"].append("missing")
                v["mods"].append("missing: true")
                have_missing = True
            if deny:
                pass
            elif self.mode == "serde":
                v["mods"].append("allow_unknown: true")
            ukey = None
            for mm in (re.match(r"M::t\((.*)\)$", mkey), re.match(r"M::U\((\d+)\)$", mkey)):
                if mm and kind != "embed" and not skip:
                    g = mm.group(1)
                    ukey = (("i", int(g)) if mkey.startswith("M::U") else ("s", unrs(g)), mkey)
            v.update(kind=kind, fields=fs, mkind=mk, key=mkey, ukey=ukey)
            v["lossless"] = v["lossless"] and all(f["lossless"] for f in fs)
            vs.append(v)
        if all(v.get("skipped") for v in vs):
            return self.enum(style, key)
        dvar = next((i for i, v in enumerate(vs) if not v.get("skipped")), 0)
        with_default = not plain and self.chance(0.3)
        if with_default:
            attrs.append("with_default")
        r.shuffle(attrs)
        decodable = style != "untagged"
        self.margs = [] if self.chance(0.1) else None
        src = self.derives(key, False)
        if not decodable:
            src = src.replace("oasis_cbor::Decode, ", "").replace(", oasis_cbor::Decode", "")
        if attrs:
            src += "#[%s(%s)]\n" % (self.ns, ", ".join(attrs))
        if repr_:
            src += "#[repr(%s)]\n" % repr_
        src += "pub enum %s {\n" % name
        build, abs_, defs = [], [], []
        for i, v in enumerate(vs):
            a = "#[%s(%s)] " % (self.ns, ", ".join(v["attrs"])) if v["attrs"] else ""
            fs = v["fields"]
            if v["kind"] == "struct":
                body = " { " + ", ".join("%s%s: %s" % (self.field_attr(f), f["name"], self.te(f)) for f in fs) + " }"
            elif fs:
                body = "(" + ", ".join("%s%s" % (self.field_attr(f), self.te(f)) for f in fs) + ")"
            else:
                body = ""
            d = " = " + self.discr_expr(v["discr"], repr_) if v["discr"] is not None else ""
            src += "    %s%s%s%s,\n" % (a, v["name"], body, d)
            build.append("%d => %s::%s { %s }" % (i, name, v["name"], ", ".join("%s: Modeled::build(&f[%d])" % (f["name"], j) for j, f in enumerate(fs))))
            abs_.append("%s::%s { %s } => MV::Enum(%d, vec![%s])" % (
                name, v["name"], ", ".join("%s: p%d" % (f["name"], j) for j, f in enumerate(fs)), i, ", ".join("p%d.model()" % j for j in range(len(fs)))))
            mods = dict(skip="false", embed="false", missing="false", allow_unknown="false")
            for m in v["mods"]:
                k, x = m.split(": ")
                mods[k] = x
            defs.append("Variant { name: %s, key: %s, kind: VKind::%s, %s, fields: vec![%s] }" % (
                rs(bare(v["name"])), v["key"], v["mkind"], ", ".join("%s: %s" % kv for kv in mods.items()), ", ".join(self.field_code(f) for f in fs)))
        src += "}\n"
        dv = vs[dvar]
        src += "impl Default for %s {\n    fn default() -> Self { %s::%s { %s } }\n}\n" % (
            name, name, dv["name"], ", ".join("%s: Default::default()" % f["name"] for f in dv["fields"]))
        lossless = all(v["lossless"] for v in vs)
        src += self.modeled(name, "Ty::Enum", "Enum", "Enum { name: %s, tag: %s, untagged: %s, default: %s, variants: vec![%s] }" % (
            rs(name), "Some(%s)" % tag if tag else "None", str(style == "untagged").lower(),
            "Some(|| <%s as Default>::default().model())" % name if with_default else "None", ", ".join(defs)),
            "match v { MV::Enum(i, f) => { let _ = f; match *i { %s, _ => panic!(\"model: variant\") } } o => panic!(\"model: {:?}\", o) }" % ", ".join(build),
            "match self { %s }" % ", ".join(abs_))
        nullable = any(v.get("skipped") for v in vs) or style == "untagged" and any(
            v["kind"] == "newtype" and v["fields"][0]["t"].nullable for v in vs)
        t = T(name, nullable=nullable or any(v["kind"] == "embed" and v["fields"][0]["t"].nullable for v in vs), key=key, default=True,
              lossless=lossless, bytes=any(f["t"].bytes for v in vs for f in v["fields"]),
              serde=all(f["t"].serde for v in vs for f in v["fields"]), decodable=decodable)
        asmap = decodable and style != "units" and all(
            (v["kind"] in ("newtype", "tuple", "struct", "unit_struct") or style == "tagged") and not v.get("skipped") and v["kind"] != "embed" for v in vs)
        t.asmap = asmap
        t.names = names | tag_used if style == "tagged" else used
        for v in vs:
            if style == "tagged" and v["kind"] == "newtype":
                t.names = t.names | set(v["fields"][0]["t"].names or [("any", 0)])
        t.embeddable = style in ("external", "units")
        t.entries = [(v["ukey"], v["kind"] == "unit") for v in vs if v["ukey"]]
        self.enums.append(t)
        self.emit(name, src, lossless, asmap=asmap, decodable=decodable)
        return t

    # ---- drivers ------------------------------------------------------------------------------------
    def builtins(self, n):
        fixed = SCALARS + ["Vec<u8>", "()", "[u8; 0]", "[u8; 1]", "[u8; 16]", "[u8; 20]", "[u8; 32]", "[u8; 33]", "[u16; 0]", "[u32; 3]",
                           "Option<u8>", "Option<String>", "Option<bool>", "Option<Vec<u8>>", "Vec<u16>", "Vec<bool>", "Vec<String>",
                           "Vec<Vec<u8>>", "Vec<Vec<Vec<u64>>>", "Vec<Option<u8>>", "Vec<()>", "[Option<u16>; 2]",
                           "(u8,)", "(u8, String)", "(u8, i8, bool)", "(u8, (u16, (u32, (u64,))))",
                           "(u8, u16, u32, u64, i8, i16, i32, i64, bool, char)", "BTreeMap<u64, u64>", "BTreeMap<i64, String>",
                           "BTreeMap<String, Vec<u8>>", "HashMap<String, u64>", "HashMap<u16, Option<bool>>", "HashMap<i32, Vec<i32>>",
                           "BTreeSet<u32>", "BTreeSet<String>", "BTreeSet<i16>", "HashSet<u64>", "HashSet<String>", "HashSet<i8>",
                           "HashSet<Vec<u8>>", "HashSet<(u8, i8)>", "BTreeMap<(u8, String), i8>", "HashMap<Vec<u8>, [u8; 2]>",
                           "BTreeMap<char, BTreeSet<u8>>", "HashMap<bool, HashSet<u16>>", "HashMap<u8, HashMap<i8, String>>",
                           "Vec<(String, Option<u32>)>", "Option<(u8, u8)>", "Vec<BTreeMap<u8, HashSet<i64>>>", "BTreeMap<Vec<u16>, u8>",
                           "HashSet<BTreeSet<u8>>", "BTreeMap<BTreeMap<u8, u8>, u8>", "HashSet<Option<i16>>", "Vec<[u8; 4]>", "Vec<u128>",
                           "BTreeSet<u128>", "HashSet<[u8; 3]>", "BTreeMap<u128, char>"]
        if self.mode == "serde":
            fixed += ["Buf", "Vec<Buf>", "Option<Buf>", "BTreeMap<Buf, u8>", "HashMap<String, Buf>", "(Buf, Vec<u8>)"]
        if self.mode == "core":
            fixed += ["Value", "Vec<Value>", "BTreeMap<u8, Value>", "Option<Value>", "Option<Option<u8>>", "Option<()>", "(Value, u8)",
                      "Vec<Option<Value>>", "BTreeMap<String, Option<Option<i8>>>"]
        lossy = {"Value", "Option<Option<u8>>", "Option<()>"}
        seen = set()
        for e in fixed:
            if self.mode == "both" and ("u8;" in e or "Vec<u8>" in e or "HashSet" in e):
                continue
            if self.mode == "serde" and "u8; 33" in e:
                continue
            seen.add(e)
            ll = not ("Value" in e or "Option<Option" in e or e in lossy)
            asmap = self.mode == "core" and (e.startswith("BTreeMap") or e.startswith("HashMap"))
            self.register(e, e, "", ll, asmap, True)
        k = 0
        while k < n:
            t = self.ty(3)
            if t.e in seen or not t.decodable or t.e[0] in "SE" and t.e[1:].isdigit():
                continue
            seen.add(t.e)
            self.register(t.e, t.e, "", t.lossless, t.asmap and t.e[0] in "BH", True)
            k += 1
        self.count["builtin"] = len(seen)

    def generic(self):
        """Hand-written shapes the grammar does not reach."""
        def add(name, src, mod, exprs, lossless=True, asmap=False, decodable=True):
            if self.mode != "core":
                src = src.replace("#[cbor(optional)] ", "")
                d = dict(serde="serde::Serialize, serde::Deserialize",
                         both="oasis_cbor::Encode, serde::Serialize, oasis_cbor::Decode, serde::Deserialize")[self.mode]
                src = src.replace("oasis_cbor::Encode, oasis_cbor::Decode", d)
                mod = mod.replace("f.optional = true;", "")
                if self.mode == "serde":
                    mod = mod.replace("allow_unknown: false", "allow_unknown: true")
            self.out.append(src + mod)
            self.odd = ["generic"] if name.startswith("Gen") else []
            for e in exprs:
                self.register(e, e, src, lossless, asmap, decodable)
            self.odd = []
        if self.mode != "core":
            return self.recursive(add)
        sd = "Struct { name: %s, shape: Shape::%s, allow_unknown: false, default: %s, fields: vec![%s] }"
        d = "Some(|| <Self as Default>::default().model())"
        fld = "{ let mut f = Field::new(%s, M::t(%s), <%s as Modeled>::ty); f.default = Some(|| <%s as Default>::default().model()); %s f }"
        bounds = "<T: oasis_cbor::Encode + oasis_cbor::Decode + Default + Modeled>"
        add("Gen1", "#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]\npub struct Gen1%s { pub one: T, #[cbor(optional)] pub many: Vec<T>, #[cbor(rename = 7)] pub maybe: Option<T> }\n" % bounds,
            self.modeled("Gen1", "Ty::Struct", "Struct", sd % ('"Gen1"', "Map", d, ", ".join([
                fld % ('"one"', '"one"', "T", "T", ""), fld % ('"many"', '"many"', "Vec<T>", "Vec<T>", "f.optional = true;"),
                fld % ('"maybe"', '"maybe"', "Option<T>", "Option<T>", "f.key = M::U(7);")])),
                "let f = v.fields(); Gen1 { one: Modeled::build(&f[0]), many: Modeled::build(&f[1]), maybe: Modeled::build(&f[2]) }",
                "MV::Struct(vec![self.one.model(), self.many.model(), self.maybe.model()])", (bounds, "<T>")),
            ["Gen1<u8>", "Gen1<String>", "Gen1<(u8, bool)>", "Gen1<Vec<u8>>", "Gen1<BTreeMap<u8, i16>>"], asmap=True)
        add("Gen2", "#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]\npub enum Gen2%s { None, Some(T), Two(T, u8), Named { inner: T, #[cbor(optional)] n: u32 } }\n" % bounds,
            self.modeled("Gen2", "Ty::Enum", "Enum", "Enum { name: \"Gen2\", tag: None, untagged: false, default: None, variants: vec![%s] }" % ", ".join(
                "Variant { name: \"%s\", key: M::t(\"%s\"), kind: VKind::%s, skip: false, embed: false, missing: false, allow_unknown: false, fields: vec![%s] }" % (n, n, k, ", ".join(f))
                for n, k, f in [("None", "Unit", []), ("Some", "Newtype", [fld % ('"0"', '"0"', "T", "T", "")]),
                                ("Two", "Array", [fld % ('"0"', '"0"', "T", "T", ""), fld % ('"1"', '"1"', "u8", "u8", "")]),
                                ("Named", "Map", [fld % ('"inner"', '"inner"', "T", "T", ""), fld % ('"n"', '"n"', "u32", "u32", "f.optional = true;")])]),
                "match v { MV::Enum(0, _) => Gen2::None, MV::Enum(1, f) => Gen2::Some(T::build(&f[0])), MV::Enum(2, f) => Gen2::Two(T::build(&f[0]), u8::build(&f[1])), MV::Enum(_, f) => Gen2::Named { inner: T::build(&f[0]), n: u32::build(&f[1]) }, o => panic!(\"model: {:?}\", o) }",
                "match self { Gen2::None => MV::Enum(0, vec![]), Gen2::Some(a) => MV::Enum(1, vec![a.model()]), Gen2::Two(a, b) => MV::Enum(2, vec![a.model(), b.model()]), Gen2::Named { inner, n } => MV::Enum(3, vec![inner.model(), n.model()]) }",
                (bounds, "<T>")),
            ["Gen2<u64>", "Gen2<Vec<String>>", "Gen2<Gen1<i8>>"])
        add("Gen3", "#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]\n#[cbor(no_default)]\npub struct Gen3<T, const N: usize> where T: oasis_cbor::Encode + oasis_cbor::Decode { pub head: T, pub raw: [u8; N] }\n",
            self.modeled("Gen3", "Ty::Struct", "Struct", sd % ('"Gen3"', "Map", "None", ", ".join(
                "Field::new(\"%s\", M::t(\"%s\"), <%s as Modeled>::ty)" % (n, n, t) for n, t in [("head", "T"), ("raw", "[u8; N]")])),
                "let f = v.fields(); Gen3 { head: Modeled::build(&f[0]), raw: Modeled::build(&f[1]) }",
                "MV::Struct(vec![self.head.model(), self.raw.model()])",
                ("<T: oasis_cbor::Encode + oasis_cbor::Decode + Modeled, const N: usize>", "<T, N>")),
            ["Gen3<u8, 0>", "Gen3<Option<bool>, 4>", "Gen3<String, 40>"], asmap=True)
        add("Gen4", "#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]\n#[cbor(transparent)]\npub struct Gen4%s(pub T);\n" % bounds,
            self.modeled("Gen4", "Ty::Struct", "Struct", sd % ('"Gen4"', "Transparent", d, fld % ('"0"', '"0"', "T", "T", "")),
                "Gen4(T::build(&v.fields()[0]))", "MV::Struct(vec![self.0.model()])", (bounds, "<T>")),
            ["Gen4<u8>", "Gen4<Vec<u8>>", "Gen4<Gen4<HashMap<u8, u8>>>", "Vec<Gen4<Option<u8>>>", "Option<Gen4<String>>"])
        # An optional field of every built-in kind.
        kinds = ["u8", "i64", "u128", "bool", "char", "String", "Vec<u8>", "Vec<u16>", "Option<u8>", "Option<String>", "BTreeMap<u8, u8>", "HashMap<String, u8>",
                 "BTreeSet<u8>", "HashSet<i8>", "(u8, String)", "(char,)", "Value", "Vec<Value>", "Tree"]
        ns = ["f%d" % k for k in range(len(kinds))]
        bare = "{ let mut f = Field::new(%s, M::t(%s), <%s as Modeled>::ty); let _ = \"%s\"; %s f }"
        for name, kinds, ns in (("Opts", kinds, ns), ("ValOpts", ["Value", "Option<Value>", "u8"], ["a", "b", "c"])):
            add(name, "#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]\n#[cbor(no_default)]\npub struct %s { %s }\n" % (
                    name, ", ".join("#[cbor(optional)] pub %s: %s" % nk for nk in zip(ns, kinds))),
                self.modeled(name, "Ty::Struct", "Struct", sd % ('"%s"' % name, "Map", "None", ", ".join(
                    (fld if k != "Value" else bare) % ('"%s"' % n, '"%s"' % n, k, k, "f.optional = true;") for n, k in zip(ns, kinds))),
                    "let f = v.fields(); %s { %s }" % (name, ", ".join("%s: Modeled::build(&f[%d])" % (n, k) for k, n in enumerate(ns))),
                    "MV::Struct(vec![%s])" % ", ".join("self.%s.model()" % n for n in ns)),
                [name], lossless=False, asmap=True)
        self.recursive(add)

    def recursive(self, add):
        sd = "Struct { name: %s, shape: Shape::%s, allow_unknown: false, default: %s, fields: vec![%s] }"
        d = "Some(|| <Self as Default>::default().model())"
        fld = "{ let mut f = Field::new(%s, M::t(%s), <%s as Modeled>::ty); f.default = Some(|| <%s as Default>::default().model()); %s f }"
        add("Tree", "#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]\npub struct Tree { pub v: u8, #[cbor(optional)] pub kids: Vec<Tree>, #[cbor(optional)] pub named: BTreeMap<String, Tree> }\n",
            self.modeled("Tree", "Ty::Struct", "Struct", sd % ('"Tree"', "Map", d, ", ".join([
                fld % ('"v"', '"v"', "u8", "u8", ""), fld % ('"kids"', '"kids"', "Vec<Tree>", "Vec<Tree>", "f.optional = true;"),
                fld % ('"named"', '"named"', "BTreeMap<String, Tree>", "BTreeMap<String, Tree>", "f.optional = true;")])),
                "let f = v.fields(); Tree { v: Modeled::build(&f[0]), kids: Modeled::build(&f[1]), named: Modeled::build(&f[2]) }",
                "MV::Struct(vec![self.v.model(), self.kids.model(), self.named.model()])"),
            ["Tree", "Vec<Tree>"], asmap=False)
        add("Expr", "#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]\npub enum Expr { Zero, Lit(i64), List(Vec<Expr>), Bin(Vec<Expr>, String), Let { name: String, #[cbor(optional)] body: Vec<Expr> } }\n",
            self.modeled("Expr", "Ty::Enum", "Enum", "Enum { name: \"Expr\", tag: None, untagged: false, default: None, variants: vec![%s] }" % ", ".join(
                "Variant { name: \"%s\", key: M::t(\"%s\"), kind: VKind::%s, skip: false, embed: false, missing: false, allow_unknown: false, fields: vec![%s] }" % (n, n, k, ", ".join(f))
                for n, k, f in [("Zero", "Unit", []), ("Lit", "Newtype", [fld % ('"0"', '"0"', "i64", "i64", "")]),
                                ("List", "Newtype", [fld % ('"0"', '"0"', "Vec<Expr>", "Vec<Expr>", "")]),
                                ("Bin", "Array", [fld % ('"0"', '"0"', "Vec<Expr>", "Vec<Expr>", ""), fld % ('"1"', '"1"', "String", "String", "")]),
                                ("Let", "Map", [fld % ('"name"', '"name"', "String", "String", ""), fld % ('"body"', '"body"', "Vec<Expr>", "Vec<Expr>", "f.optional = true;")])]),
                "match v { MV::Enum(0, _) => Expr::Zero, MV::Enum(1, f) => Expr::Lit(Modeled::build(&f[0])), MV::Enum(2, f) => Expr::List(Modeled::build(&f[0])), MV::Enum(3, f) => Expr::Bin(Modeled::build(&f[0]), Modeled::build(&f[1])), MV::Enum(_, f) => Expr::Let { name: Modeled::build(&f[0]), body: Modeled::build(&f[1]) }, o => panic!(\"model: {:?}\", o) }",
                "match self { Expr::Zero => MV::Enum(0, vec![]), Expr::Lit(a) => MV::Enum(1, vec![a.model()]), Expr::List(a) => MV::Enum(2, vec![a.model()]), Expr::Bin(a, b) => MV::Enum(3, vec![a.model(), b.model()]), Expr::Let { name, body } => MV::Enum(4, vec![name.model(), body.model()]) }"),
            ["Expr"])

    def run(self, structs, enums, builtins):
        # Key types first, so that maps can use them.
        self.enum("units", key=True)
        self.enum("units", key=True)
        self.struct("map", key=True)
        self.struct("tuple", key=True)
        fixed = []
        if self.mode == "core":
            fixed = [("s", x) for x in ("dense", "transparent!", "map+", "map-", "as_array+", "as_array-", "tuple+", "tuple-", "dense", "dense", "map", "map", "map", "tuple", "newtype", "transparent", "as_array", "unit", "tuple0")] + \
                    [("e", x) for x in ("every", "every", "every-skipped", "every-tagged", "every-tagged", "dense", "host", "host", "host", "external", "external", "units", "discr", "discr", "discr", "tagged", "tagged", "tagged", "untagged", "untagged")]
        todo = fixed + [("s", None)] * structs + [("e", None)] * enums
        self.r.shuffle(todo)
        for k, style in todo:
            if k == "s":
                self.struct(style)
            else:
                self.enum(style)
        self.generic()
        self.builtins(builtins)
        body = "\n".join(self.out)
        ty = "Info" if self.mode == "core" else "SInfo"
        text = "// Generated by gen_types.py.\n" + body + "\npub fn types(v: &mut Vec<%s>) {\n" % ty + "\n".join(self.regs) + "\n}\n"
        # This crate imports the library under another name.
        return text.replace("oasis_cbor::", "cbor::") if self.mode == "core" else text


def write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--structs", type=int, default=46)
    ap.add_argument("--enums", type=int, default=34)
    ap.add_argument("--builtins", type=int, default=40)
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    stats = {}
    for mode, f in (("core", 1), ("serde", 0.7), ("both", 0.6)):
        # Of several sets, the one with the most combinations of attributes.
        best = None
        for k in range(10):
            g = Gen(a.seed + (k << 32), mode)
            text = g.run(int(a.structs * f), int(a.enums * f), int(a.builtins * f))
            if best is None or len(g.feats) > len(best[0].feats):
                best = g, text
        g, text = best
        write(os.path.join(a.out, mode + ".rs"), text)
        stats[mode] = dict(g.count, combinations=len(g.feats))
    write(os.path.join(a.out, "stats.json"), json.dumps(stats))


if __name__ == "__main__":
    main()
