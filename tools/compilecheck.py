"""C19: generated type definitions with contradictory attributes must not compile; their repaired twins must.

A case is a definition (a plain tree of containers, variants, fields and attribute lists) with one
contradiction planted, and its twin without the offending attribute. Many definitions are compiled
at once, each in a module of its own, and the compiler's diagnostics are attributed by line; errors
of an early compiler stage hide those of a later one, so the rest is compiled again until nothing
new shows. What looks like a violation is confirmed by compiling the one definition alone, then
shrunk by removing parts."""
import copy, json, os, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

PRELUDE = """#![allow(dead_code, unused, unreachable_patterns, non_camel_case_types)]
pub fn ser<T>(_: &T) -> u8 { 0 }
pub fn de<T: Default>(_: u8) -> Result<T, oasis_cbor::DecodeError> { Ok(T::default()) }
pub fn no<T>(_: &T) -> bool { false }
#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]
pub struct MapS { a: u8, b: Option<String> }
#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]
pub enum Inner { P, Q(u8), R { x: u16 } }
impl Default for Inner { fn default() -> Self { Inner::P } }
// Types whose encoding is not always a map.
#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]
pub struct Pair(u8, u16);
#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]
#[cbor(as_array)]
pub struct Row { a: u8, b: u16 }
#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]
#[cbor(transparent)]
pub struct Clear(u8);
#[derive(Default, oasis_cbor::Encode, oasis_cbor::Decode)]
pub struct Nil;
#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]
pub enum Hides { A { x: u8 }, B(u8), #[cbor(skip)] C }
impl Default for Hides { fn default() -> Self { Hides::C } }
#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]
pub enum Hosts { A { x: u8 }, #[cbor(embed)] B(Inner), C(u8, u8) }
impl Default for Hosts { fn default() -> Self { Hosts::B(Inner::P) } }
#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]
#[cbor(tag = "u")]
pub enum HidesT { A { x: u8 }, #[cbor(skip)] C }
impl Default for HidesT { fn default() -> Self { HidesT::C } }
#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]
pub enum Numbered { A = 1, B = 2 }
impl Default for Numbered { fn default() -> Self { Numbered::A } }
// One whose encoding is.
#[derive(oasis_cbor::Encode, oasis_cbor::Decode)]
pub enum Always { A { x: u8 }, B(u8), C(u8, u8), #[cbor(as_struct)] D }
impl Default for Always { fn default() -> Self { Always::B(1) } }
pub mod ok { pub use super::*; }
"""
TYPES = ["u8", "u64", "i32", "i64", "u128", "bool", "String", "Vec<u8>", "Vec<String>", "Option<u16>", "(u8, u16)",
         "Option<String>", "std::collections::BTreeMap<u8, String>", "super::MapS", "super::Inner", "[u8; 4]", "oasis_cbor::Value2"]
TYPES.pop()
MAPS = ["super::MapS", "super::MapS", "super::Always", "std::collections::BTreeMap<u8, String>", "std::collections::HashMap<String, u8>"]
NO_MAPS = ["super::Pair", "super::Row", "super::Clear", "super::Nil", "super::Numbered", "super::Hides", "super::Hosts", "super::HidesT", "super::Inner", "u8", "String",
           "Option<super::MapS>", "Vec<u8>", "(u8, u16)", "()", "Vec<super::MapS>"]
NAMES = ["a", "b", "foo", "bar", "longer_name_of_a_field", "id", "kind", "x1"]
VNAMES = ["A", "B", "One", "Two", "LongerVariantName", "Other", "X9"]
CONTAINER = {"transparent", "untagged", "tag", "as_array", "no_default", "with_default", "allow_unknown"}
VARIANT = {"rename", "as_array", "as_struct", "skip", "embed", "allow_unknown", "missing"}
FIELD = {"rename", "optional", "skip", "skip_serializing_if", "serialize_with", "deserialize_with"}
VALUED = {"tag": '"t"', "rename": '"r"', "skip_serializing_if": '"super::no"', "serialize_with": '"super::ser"',
          "deserialize_with": '"super::de"'}
UNKNOWN = ["as_arry", "optinal", "defaults", "renamed", "skip_if", "flatten", "deny_unknown", "untaged", "transparant",
           "rename_all", "default", "with", "Skip", "embedded", "skip_deserializing", "alias"]


def attr(name):
    return "%s = %s" % (name, VALUED[name]) if name in VALUED else name


# ---- definitions ----------------------------------------------------------------------------------

class Gen:
    def __init__(self, r):
        self.r = r

    def chance(self, p):
        return self.r.random() < p

    def rename(self):
        return 'rename = "k%d"' % self.r.randrange(30) if self.chance(0.6) else "rename = %d" % self.r.choice([0, 1, 23, 24, 300, 2 ** 32])

    def field(self, named, name, mapped, ty=None):
        a = []
        if named and mapped and self.chance(0.3):
            a.append(self.rename())
        if mapped and self.chance(0.3):
            a.append("optional")
            if self.chance(0.4):
                a.append(attr("skip_serializing_if"))
        if self.chance(0.12):
            a.append("skip")
        if self.chance(0.12):
            a += [attr("serialize_with"), attr("deserialize_with")]
        return dict(name=name if named else None, ty=ty or self.r.choice(TYPES), attrs=a)

    def fields(self, shape, mapped, lo=0):
        if shape == "unit":
            return []
        n = max(lo, self.r.choice([0, 1, 2, 2, 3, 4]))
        if shape == "newtype":
            n = 1
        elif shape == "tuple" and n == 1:
            n = 2
        names = self.r.sample(NAMES, n)
        return [self.field(shape == "named", names[i], mapped and shape == "named") for i in range(n)]

    def struct(self, shape=None):
        r = self.r
        shape = shape or r.choice(["named", "named", "named", "tuple", "newtype", "unit"])
        a = []
        arr = shape == "named" and self.chance(0.2)
        if arr:
            a.append("as_array")
        if self.chance(0.15):
            a.append("no_default")
        elif self.chance(0.1):
            a.append("with_default")
        if shape == "named" and self.chance(0.2):
            a.append("allow_unknown")
        return dict(kind="struct", shape=shape, attrs=a, fields=self.fields(shape, not arr), derives=self.derives())

    def derives(self):
        return self.r.choice([["Encode"], ["Decode"], ["Encode", "Decode"], ["Decode", "Encode"]])

    def variant(self, name, tagged, shape=None):
        r = self.r
        shape = shape or r.choice(["unit", "newtype", "named"] + ([] if tagged else ["tuple"]))
        a = []
        if self.chance(0.3):
            a.append(self.rename())
        if shape == "unit" and self.chance(0.2):
            a.append("as_struct")
        arr = shape == "named" and not tagged and self.chance(0.2)
        if arr:
            a.append("as_array")
        if shape == "named" and self.chance(0.2):
            a.append("allow_unknown")
        if self.chance(0.1):
            a.append("skip")
        f = self.fields(shape, not arr)
        if shape == "newtype":
            f[0]["attrs"] = []
            if tagged:
                f[0]["ty"] = self.r.choice(MAPS)
        return dict(name=name, shape=shape, attrs=a, fields=f)

    def enum(self, tagged=None, lo=1):
        r = self.r
        if tagged is None:
            tagged = self.chance(0.35)
        n = max(lo, r.choice([1, 2, 3, 4]))
        vs = [self.variant(x, tagged) for x in r.sample(VNAMES, n)]
        a = []
        if tagged:
            a.append("tag = " + ('"t"' if self.chance(0.6) else "7"))
            ok = [v for v in vs if "skip" not in v["attrs"]]
            if ok and self.chance(0.3):
                r.choice(ok)["attrs"].append("missing")
        elif self.chance(0.25):
            vs.append(dict(name="Emb", shape="newtype", attrs=["embed"], fields=[dict(name=None, ty="super::Inner", attrs=[])]))
        if self.chance(0.15):
            a.append("with_default")
        elif self.chance(0.1):
            a.append("no_default")
        return dict(kind="enum", attrs=a, variants=vs, derives=self.derives())

    # Each rule returns a definition with a contradiction; `off` marks the offending attribute with a
    # leading '!', which the twin leaves out.
    def put(self, attrs, a):
        attrs.insert(self.r.randrange(len(attrs) + 1), "!" + a)

    def clear(self, d, *names):
        d["attrs"] = [a for a in d["attrs"] if a.split(" ")[0] not in names]

    def transparent_enum(self):
        d = self.enum()
        self.put(d["attrs"], "transparent")
        return d

    def transparent_struct(self):
        d = self.struct(self.r.choice(["named", "named", "tuple", "unit"]))
        self.put(d["attrs"], "transparent")
        return d

    def defaults(self):
        d = self.struct() if self.chance(0.6) else self.enum()
        self.clear(d, "no_default", "with_default")
        two = ["no_default", "with_default"]
        self.r.shuffle(two)
        d["attrs"].append(two[0])
        self.put(d["attrs"], two[1])
        return d

    def untagged_tag(self):
        d = self.enum(tagged=self.chance(0.7))
        d["derives"] = ["Encode"] if self.chance(0.7) else self.derives()
        if any(a.startswith("tag") for a in d["attrs"]):
            self.put(d["attrs"], "untagged")
        else:
            for v in d["variants"]:
                self.clear(v, "embed")
            if any(v["shape"] in ("tuple", "newtype") or "as_array" in v["attrs"] for v in d["variants"]):
                return self.untagged_tag()
            self.put(d["attrs"], "untagged")
            d["attrs"].append('!tag = "t"')
        return d

    def untagged_decode(self):
        d = self.enum(tagged=False)
        if "Decode" not in d["derives"]:
            d["derives"] = ["Decode"]
        self.put(d["attrs"], "untagged")
        return d

    def array_condition(self):
        if self.chance(0.5):
            shape = self.r.choice(["named", "tuple", "newtype"])
            d = self.struct(shape)
            if shape == "named":
                self.clear(d, "as_array")
                d["attrs"].append("as_array")
            d["fields"] = self.fields(shape, False, 1)
            f = d["fields"]
        else:
            d = self.enum(tagged=False)
            v = self.r.choice(d["variants"])
            v["shape"] = self.r.choice(["named", "tuple"])
            v["attrs"] = ["as_array"] if v["shape"] == "named" else []
            v["fields"] = f = self.fields(v["shape"], False, 1)
        if "Encode" not in d["derives"]:
            d["derives"] = ["Encode"]
        x = self.r.choice(f)
        x["attrs"] = [a for a in x["attrs"] if a != "skip"]
        self.put(x["attrs"], attr("skip_serializing_if"))
        if self.chance(0.3):
            x["attrs"].append("optional")
        return d

    def embed_shape(self):
        d = self.enum(tagged=False)
        v = self.r.choice(d["variants"])
        if "embed" in v["attrs"] or v["shape"] == "newtype":
            v["shape"] = self.r.choice(["unit", "tuple", "named"])
            v["fields"] = self.fields(v["shape"], "as_array" not in v["attrs"])
        self.clear(v, "skip", "embed")
        self.put(v["attrs"], "embed")
        return d

    def embed_tagged(self):
        d = self.enum(tagged=True)
        v = self.r.choice(d["variants"])
        v.update(shape="newtype", fields=[dict(name=None, ty="super::MapS", attrs=[])])
        self.clear(v, "skip", "as_struct", "allow_unknown")
        self.put(v["attrs"], "embed")
        return d

    def array_tagged(self):
        d = self.enum(tagged=True)
        v = self.r.choice(d["variants"])
        self.clear(v, "skip", "as_struct")
        if self.chance(0.5):
            # A tuple variant: here the tag is what is offending.
            v.update(shape="tuple", fields=self.fields("tuple", False))
            for w in d["variants"]:
                self.clear(w, "missing")
            d["attrs"] = [("!" + a if a.startswith("tag") else a) for a in d["attrs"]]
        else:
            if v["shape"] == "newtype" or (v["shape"] == "unit" and self.chance(0.5)):
                v["shape"] = "named"
                v["fields"] = self.fields("named", True)
            for f in v["fields"]:
                f["attrs"] = [a for a in f["attrs"] if not a.startswith("skip_ser")]
            self.put(v["attrs"], "as_array")
        return d

    def content_tagged(self):
        d = self.enum(tagged=True)
        if "Encode" not in d["derives"]:
            d["derives"] = ["Encode"]
        v = self.r.choice(d["variants"])
        self.clear(v, "skip", "as_struct", "allow_unknown")
        v.update(shape="newtype", fields=[dict(name=None, ty=self.r.choice(NO_MAPS), attrs=[])])
        for w in d["variants"]:
            self.clear(w, "missing")
        d["attrs"] = [("!" + a if a.startswith("tag") else a) for a in d["attrs"]]
        return d

    def two_missing(self):
        d = self.enum(tagged=True, lo=2)
        if "Decode" not in d["derives"]:
            d["derives"] = ["Decode"]
        for v in d["variants"]:
            self.clear(v, "missing", "skip")
        a, b = self.r.sample(d["variants"], 2)
        a["attrs"].append("missing")
        self.put(b["attrs"], "missing")
        if self.chance(0.2):
            for v in d["variants"]:
                if "missing" not in v["attrs"] and "!missing" not in v["attrs"]:
                    self.put(v["attrs"], "missing")
        return d

    def unknown(self):
        d = self.struct(self.r.choice(["named", "tuple", "newtype"])) if self.chance(0.5) else self.enum()
        places = [(d["attrs"], CONTAINER)]
        for v in d.get("variants", []):
            places.append((v["attrs"], VARIANT))
            places += [(f["attrs"], FIELD) for f in v["fields"]]
        places += [(f["attrs"], FIELD) for f in d.get("fields", [])]
        attrs, legal = self.r.choice(places)
        k = self.r.random()
        if k < 0.5:
            self.put(attrs, self.r.choice(UNKNOWN) + self.r.choice(["", "", ' = "x"', " = 1"]))
        elif k < 0.85:
            self.put(attrs, attr(self.r.choice(sorted((CONTAINER | VARIANT | FIELD) - legal))))
        else:
            a = self.r.choice(attrs) if attrs else attr(self.r.choice(sorted(legal & {"rename", "allow_unknown"} or {"rename"})))
            if not attrs:
                attrs.append(a)
            self.put(attrs, a)
        return d


RULES = {
    "transparent on an enum": Gen.transparent_enum,
    "transparent on a non-newtype": Gen.transparent_struct,
    "no_default with with_default": Gen.defaults,
    "untagged with tag": Gen.untagged_tag,
    "decoding an untagged enum": Gen.untagged_decode,
    "conditional skipping of array elements": Gen.array_condition,
    "embedding a non-newtype variant": Gen.embed_shape,
    "embedding in a tagged enum": Gen.embed_tagged,
    "array-shaped variant in a tagged enum": Gen.array_tagged,
    "content that is not always a map in a tagged enum": Gen.content_tagged,
    "several variants for a missing tag": Gen.two_missing,
    "unknown, misplaced or repeated attribute": Gen.unknown,
}


# ---- rendering ------------------------------------------------------------------------------------

def cbor(attrs, twin, split):
    a = [x.lstrip("!") for x in attrs if not (twin and x.startswith("!"))]
    if not a:
        return ""
    if split:
        return "".join("#[cbor(%s)] " % x for x in a)
    return "#[cbor(%s)] " % ", ".join(a)


def body(shape, fields, twin, split, pub):
    p = "pub " if pub else ""
    fs = [cbor(f["attrs"], twin, split) + p + ("%s: " % f["name"] if shape == "named" else "") + f["ty"] for f in fields]
    if shape == "named":
        return " { %s }" % ", ".join(fs)
    if shape == "unit":
        return ""
    return "(%s)" % ", ".join(fs)


def render(d, twin):
    s = "#[derive(%s)]\n%s\npub " % (", ".join("oasis_cbor::" + x for x in d["derives"]), cbor(d["attrs"], twin, d["split"]))
    if d["kind"] == "struct":
        b = body(d["shape"], d["fields"], twin, d["split"], True)
        s += "struct T%s%s" % (b, "" if d["shape"] == "named" else ";")
    else:
        vs = [cbor(v["attrs"], twin, d["split"]) + v["name"] + body(v["shape"], v["fields"], twin, d["split"], False) for v in d["variants"]]
        s += "enum T { %s }" % ",\n ".join(vs)
    return s + "\nimpl Default for T { fn default() -> Self { panic!() } }\n"


def features(d):
    """What makes the case: rule, derives, container, shapes and attributes."""
    return render(d, False)


# ---- compiling ------------------------------------------------------------------------------------

class Compiler:
    def __init__(self, mod, work):
        self.mod, self.work = mod, work
        self.env = dict(mod.env(), CARGO_MANIFEST_DIR=os.path.join(mod.HARNESS, "raw"))
        self.env.pop("RUSTC_WRAPPER")
        self.n = 0
        with mod.Lock():
            mod.refresh()
            r = subprocess.run(["cargo", "build", "--offline", "--target", mod.TARGET, "-p", "oasis-cbor", "--message-format=json"],
                               cwd=mod.HARNESS, env=mod.env(), capture_output=True, text=True)
            if r.returncode:
                raise mod.NoVerdict("build failed:\n" + r.stderr[-8000:])
            lib = None
            for l in r.stdout.splitlines():
                m = json.loads(l)
                if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "oasis_cbor":
                    lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
            deps = os.path.join(mod.BUILD, "target", mod.TARGET, "debug", "deps")
            host = os.path.join(mod.BUILD, "target", "debug", "deps")
            # A private copy, so that other builds cannot replace the files meanwhile.
            self.lib = os.path.join(work, "deps")
            os.makedirs(self.lib)
            for src in (deps, host):
                for f in os.listdir(src):
                    if f.startswith("liboasis_cbor") or f.endswith(".so") or f.endswith((".rlib", ".rmeta")):
                        p = os.path.join(self.lib, f)
                        if not os.path.exists(p):
                            shutil.copy2(os.path.join(src, f), p)
            if not lib:
                raise mod.NoVerdict("cannot find the built library")
            self.rlib = os.path.join(work, "liboasis_cbor.rlib")
            shutil.copy2(lib, self.rlib)

    def rustc(self, text):
        self.n += 1
        d = tempfile.mkdtemp(dir=self.work)
        p = os.path.join(d, "cases.rs")
        with open(p, "w") as f:
            f.write(text)
        r = subprocess.run(["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-Awarnings",
                            "--out-dir", d, "-L", "dependency=" + self.lib, "--extern", "oasis_cbor=" + self.rlib, p],
                           capture_output=True, text=True, env=self.env, timeout=600)
        shutil.rmtree(d, ignore_errors=True)
        if r.returncode not in (0, 1, 101):
            raise self.mod.NoVerdict("rustc ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
        return r

    def judge(self, texts):
        """Per definition: None when it compiles, else the first error it draws."""
        out = [None] * len(texts)
        left = list(range(len(texts)))
        while left:
            src, lines = PRELUDE, {}
            for i in left:
                a = src.count("\n") + 1
                src += "pub mod m%d {\n%s}\n" % (i, texts[i])
                for k in range(a, src.count("\n") + 1):
                    lines[k] = i
            r = self.rustc(src)
            if r.returncode == 0:
                return out
            hit = set()
            loose = ""
            for l in r.stderr.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    loose += l
                    continue
                if m.get("level") not in ("error", "error: internal compiler error"):
                    continue
                where = []
                for s in m.get("spans", []):
                    while s:
                        where.append(s)
                        s = (s.get("expansion") or {}).get("span")
                for s in where:
                    i = lines.get(s["line_start"]) if s["file_name"].endswith("cases.rs") else None
                    if i is not None:
                        hit.add(i)
                        out[i] = out[i] or m["message"]
                        break
                else:
                    if not m["message"].startswith("aborting"):
                        loose += m["message"]
            if not hit:
                if len(left) == 1:
                    out[left[0]] = loose[:300] or "error"
                    return out
                h = len(left) // 2
                for part in (left[:h], left[h:]):
                    for i, x in zip(part, self.judge([texts[i] for i in part])):
                        out[i] = x
                return out
            left = [i for i in left if i not in hit]
        return out


def smaller(d):
    """Definitions with one part less; the offending attribute stays."""
    def drop(path):
        c = copy.deepcopy(d)
        x = c
        for p in path[:-1]:
            x = x[p]
        del x[path[-1]]
        return c
    if len(d["derives"]) > 1:
        for i in range(len(d["derives"])):
            yield drop(("derives", i))
    for i, v in enumerate(d.get("variants", [])):
        if len(d["variants"]) > 1:
            yield drop(("variants", i))
    lists = [("fields", d)] if d["kind"] == "struct" else []
    paths = [(("fields",), d.get("shape"))] if d["kind"] == "struct" else [(("variants", i, "fields"), v["shape"]) for i, v in enumerate(d["variants"])]
    attr_paths = [("attrs",)]
    for p, shape in paths:
        x = d
        for k in p:
            x = x[k]
        for i in range(len(x)):
            if shape == "named" or (shape == "tuple" and len(x) > 2):
                yield drop(p + (i,))
            attr_paths.append(p + (i, "attrs"))
    attr_paths += [("variants", i, "attrs") for i in range(len(d.get("variants", [])))]
    for p in attr_paths:
        x = d
        for k in p:
            x = x[k]
        for i, a in enumerate(x):
            if not a.startswith("!"):
                yield drop(p + (i,))


def offending(d):
    return "!" in json.dumps(d)


def broken(comp, rule, d):
    """The violation this one definition shows on its own, or None."""
    bad, good = comp.judge([render(d, False)])[0], comp.judge([render(d, True)])[0]
    if good is not None:
        return "the definition without the offending attribute is refused (%s)" % good
    if bad is None:
        return "the definition compiles"
    return None


def run(mod, prop, tier, seed, t0):
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=mod.BUILD) if os.path.isdir(mod.BUILD) else None
    if work is None:
        os.makedirs(mod.BUILD)
        work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=mod.BUILD)
    try:
        comp = Compiler(mod, work)
        if comp.judge([""])[0] is not None or comp.rustc(PRELUDE).returncode:
            raise mod.NoVerdict("the surroundings of the definitions do not compile")
        per_batch, batches = 130, (80 if tier == "quick" else 1600)
        rules = list(RULES.items())

        def one(n):
            r = random.Random("%d/%d" % (seed, n))
            cases = []
            for k in range(per_batch):
                name, f = rules[(k + n) % len(rules)]
                d = f(Gen(r))
                d["split"] = r.random() < 0.3
                cases.append((name, d))
            bad = comp.judge([render(d, False) for _, d in cases])
            good = comp.judge([render(d, True) for _, d in cases])
            return [(name, d, b, g) for (name, d), b, g in zip(cases, bad, good)]
        with ThreadPoolExecutor(mod.NSHARDS) as ex:
            results = [x for l in ex.map(one, range(batches)) for x in l]
        classes, distinct, samples, reasons, suspects = {}, set(), [], {}, []
        for name, d, b, g in results:
            classes[name] = classes.get(name, 0) + 1
            distinct.add(render(d, False))
            if b is None or g is not None:
                suspects.append((name, d))
            else:
                reasons.setdefault(name, {})
                m = b[:80]
                reasons[name][m] = reasons[name].get(m, 0) + 1
            if len([s for s in samples if s.startswith(name)]) < 2:
                samples.append("%s: %s -- refused: %s" % (name, " ".join(render(d, False).split()), b))
        failures, kinds = [], set()
        suspects.sort(key=lambda x: len(render(x[1], False)))
        for name, d in suspects:
            what = broken(comp, name, d)
            if what is None or (name, what) in kinds:
                continue
            kinds.add((name, what))
            end = time.time() + 60
            again = True
            while again and time.time() < end:
                again = False
                for c in smaller(d):
                    w = broken(comp, name, c)
                    if w == what:
                        d, again = c, True
                        break
            failures.append(dict(sub="compile", rule=name, tape=[], definition=render(d, False), twin=render(d, True),
                                 message="%s: %s: %s" % (name, what, " ".join(render(d, False).split()))))
            if len(failures) >= 4:
                break
        cov = dict(evaluations=2 * len(results), distinct_nontrivial=len(distinct), rule=mod.plan.PROPS[prop]["rule"], samples=samples,
                   classes=classes, diagnostics={k: sorted(v.items(), key=lambda x: -x[1])[:4] for k, v in reasons.items()},
                   compilations=comp.n)
        return mod.finish(prop, tier, seed, cov, failures, t0, [mod.save_replay(prop, f) for f in failures])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(mod, f):
    os.makedirs(mod.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-C19-", dir=mod.BUILD)
    try:
        comp = Compiler(mod, work)
        bad, good = comp.judge([f["definition"]])[0], comp.judge([f["twin"]])[0]
        print("with the contradiction: %s; without: %s" % (bad or "compiles", good or "compiles"))
        if bad is None or good is not None:
            print(f["message"])
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
