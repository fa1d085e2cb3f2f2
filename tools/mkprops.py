#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long strings stay reviewable)."""
import json, os
R="value/src/reader.rs"; W="value/src/writer.rs"; V="value/src/values.rs"; VM="value/src/macros.rs"
D="src/decode.rs"; E="src/encode.rs"; L="src/lib.rs"; M="src/macros.rs"
DD="derive/src/decode.rs"; DE="derive/src/encode.rs"; DC="derive/src/common.rs"
SD="src/serde/de.rs"; SS="src/serde/ser.rs"; SM="src/serde/mod.rs"; SE="src/serde/error.rs"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

prop("C01","Strict decoding accepts exactly the canonical encodings",
 "Strict decoding succeeds on a byte string if and only if it is exactly one canonical CBOR item within the nesting limit: shortest-form heads, definite lengths, valid UTF-8 text, map keys strictly ascending in canonical order, no simple value other than false, true, null and undefined, no float, nothing missing and nothing trailing. When it succeeds the result is exactly the value those bytes denote. When an otherwise canonical input has exactly one of these defects, the reported low-level error is the one that names that defect.",
 ["inputs"],"every byte string, every nesting limit",
 "The unit tests feed a few dozen literal byte strings; acceptance is a claim about every byte string, including heads of every width, long strings, mixed key types and nested containers.",
 [R],[("head parsing and shortest-form test",R),("key order test while reading a map",R),("trailing data test",R)],
 ["result of strict decoding to a value or to a type"])
prop("C02","Accepted bytes re-encode to themselves (no malleability)",
 "If strict decoding accepts a byte string, encoding the decoded value succeeds and gives back exactly the same byte string. Hence two different byte strings never decode, in strict mode, to values that compare equal.",
 ["inputs"],"every byte string that strict decoding accepts, and every pair of them",
 "The repository has a fuzz target for this that CI never runs; the unit tests compare a handful of fixed encodings.",
 [R,W,V],[("reader and writer agree on the canonical form",R+", "+W)],["bytes in, bytes out"])
prop("C03","Encoding a value yields its canonical form and loses nothing",
 "For every value tree (integers from -2^64 to 2^64-1; map entries in any order, also inside map keys) whose maps have distinct keys and whose nesting is within the encoder's limit, encoding succeeds, produces the one canonical byte string for that value whatever order its map entries were given in, appends it after whatever the output buffer already holds, and decoding those bytes yields a value equal to the original with the entries of every map in canonical order. A value in which some map has two keys with the same encoding is refused with the duplicate-key error.",
 ["inputs"],"every value tree, every order of map entries, every content of the output buffer",
 "Unit tests encode fixed small values and check maps with scalar keys or keys that are already in order.",
 [W,V,L],[("key sorting and duplicate detection",W),("shortest-form head emission",W)],["encoded bytes","encoder error"])
prop("C04","Values are totally ordered exactly as their canonical encodings are",
 "Comparison of values is a total order, consistent with equality and with the partial order, and for values whose maps are in canonical order it coincides with byte-wise comparison of their canonical encodings; in particular two such values are equal exactly when their encodings are. Sorting and searching by it therefore reproduces canonical CBOR key order.",
 ["inputs"],"every pair and triple of values",
 "The unit test checks a fixed list of about 80 pairs of tiny values.",
 [V],[("comparison by major type, length, then content",V)],["result of comparison and equality"])
prop("C05","Non-strict decoding accepts all well-formed data and agrees with strict",
 "Every input that strict decoding accepts is accepted by non-strict decoding with the same result, for raw values and for every target type. Non-strict decoding also accepts over-long heads, map entries that are unsorted or repeated (all kept, in input order) and trailing bytes (ignored), reads floats and unknown simple values as undefined, and still refuses anything incomplete, of indefinite length, with reserved head bits, with invalid UTF-8 or nested too deeply. The C entry point used for differential fuzzing against the Go implementation returns 0 exactly when non-strict decoding to a value succeeds.",
 ["inputs"],"every byte string, every nesting limit, every target type",
 "Five fixed inputs and one reorder test exercise this mode today; the Go differential fuzzer needs modules that are absent and only runs one minute in CI.",
 [R,L,"difffuzz/src/lib.rs"],[("non-strict flag in the reader",R),("non-strict typed entry point",L),("C entry point","difffuzz/src/lib.rs")],["decoded value","C entry point's return code"])
prop("C06","Untrusted input never panics, crashes or exhausts memory",
 "Decoding any byte string in any mode (strict, non-strict, through serde, through the C entry point) and converting any value into any supported type returns either a result or an error: it never panics, overflows the stack or aborts. The memory it allocates is bounded by a constant multiple of the input length plus a constant, whatever lengths the input announces.",
 ["inputs"],"every byte string and every value, every target type, every decoding mode",
 "One unit test covers over-long announced lengths for four major types; malformed data for typed targets is sampled by a few literals only.",
 [R,D,M,DD,SD,"difffuzz/src/lib.rs"],[("no preallocation from announced lengths",R),("nesting limit",R+", "+L),("length checks before indexing",D)],["process survival, panics, peak allocation"])
prop("C07","Nesting limits are exact on both sides",
 "Decoding or encoding with an explicit limit n succeeds exactly when no item lies deeper than n containers (arrays, map keys, map values and tags each count one level, a top-level item is at level 0), any negative limit refuses everything, and no limit imposes none; a violation is reported as too much nesting. The default limits are 127 for raw decoding and encoding, and 64 for every typed decoding entry point including the serde one.",
 ["inputs","configurations"],"every nesting structure, every limit",
 "Unit tests check two or three limits on hand-written arrays and maps; tags, keys and the typed entry points' limit are not covered.",
 [R,W,L,SM],[("remaining depth passed down",R+", "+W),("typed limit constant",L)],["success or nesting error at a given limit"])
prop("C08","Scalars decode to exactly the number, bool, char or string sent, or fail",
 "Decoding a scalar into an integer type, bool, char, byte string, fixed-size byte array, string or 128-bit unsigned (big-endian bytes, at most 16) yields exactly the transmitted value when the target can represent it and fails otherwise: never a wrapped, truncated, padded, re-signed or re-typed value. A non-negative integer outside the target's range is reported as an unexpected integer size (a negative one too, where the target is signed), an item of another kind as an unexpected type, and encoding a scalar always produces the canonical item that decodes back to it.",
 ["inputs"],"every scalar CBOR item crossed with every scalar target type",
 "Tests decode a few small numbers per type; the 64-bit, sign and width boundaries of each type are not enumerated.",
 [D,E],[("checked integer conversions",D),("big-endian minimal form of 128-bit integers",E+", "+D)],["decoded value or error"])
prop("C09","Built-in composite types round-trip through their wire form",
 "Encoding any composition of sequences, fixed-size arrays, tuples of 1 to 10 elements, options, ordered and hashed maps and sets, unit and raw values produces the canonical bytes of the documented shape (byte sequences as byte strings, other sequences, sets and tuples as arrays, the elements of a hashed set in the order of their encodings, maps as maps, none and unit as null), and decoding those bytes gives back an equal Rust value. Converting to and from the in-memory value instead of bytes gives the same results. Excluded are options whose payload itself encodes as null, and values nested deeper than the decoder's limit.",
 ["inputs","programs"],"every such type, every value of it",
 "Tests use about ten concrete types with one or two values each.",
 [D,E,L],[("trait implementations for built-in types",E+", "+D),("specialisation for byte sequences",E+", "+D)],["encoded bytes","decoded Rust value"])
prop("C10","Derived types round-trip through the wire form their attributes select",
 "For every struct and enum accepted by the derive macros, in any combination of the field, variant and container attributes, the encoding is the canonical form of the shape those attributes select: map keyed by field name or rename, array when requested or for tuple types, the inner value when transparent, skipped fields absent, custom field codecs applied also to optional fields, and untagged enums as the bare payload. Decoding that encoding gives back the original value, with skipped fields at their default. Types that always encode as maps expose exactly those entries through the as-map interface.",
 ["programs","inputs"],"every type definition the macros accept, every value of it (except lossy cases the type itself declares: skipped data, ambiguous nulls, overlapping keys)",
 "The test suite has some thirty fixed types with one value each; attribute interactions (optional with custom codecs, skipped fields in arrays, generics, integer keys) are mostly unsampled.",
 [DE,DD,DC,M],[("generated encoder",DE),("generated decoder",DD),("attribute parsing",DC)],["encoded bytes","decoded Rust value"])
prop("C11","Decoding rejects data the target type does not have",
 "A derived map-shaped struct or variant refuses any entry whose key is not one of its fields, wherever that key sorts, reporting an unknown field, unless it allows unknown fields, in which case such entries never change the result. Array-shaped targets (tuples, tuple and as-array structs, tuple variants) refuse surplus elements as unknown and missing ones as a missing field, fixed-size arrays refuse any other length, unit types refuse any payload, and a struct refuses repeated keys. The order of map entries in an in-memory value never affects the outcome, except that of several entries whose keys decode to one key of a map-typed target the last prevails.",
 ["inputs","programs"],"every derived or tuple type, every input obtained from a valid one by adding, removing, repeating or reordering entries at any depth",
 "Tests add one extra entry at three positions to one two-field struct, and one trailing entry to one struct that allows unknown fields.",
 [DD,M,D],[("ordered destructuring of the entry list",M),("leftover test",DD),("tuple length test",D)],["decode success or unknown/missing field error"])
prop("C12","Missing, null and undefined fields mean default; omission is lossless",
 "For a derived map-shaped type, leaving out a field, sending null and sending undefined are indistinguishable to the decoder: the field takes its type's default if it has one and otherwise decoding fails with a missing field. A top-level null or undefined likewise decodes to the type's default or fails. A field marked optional is left out of the encoding exactly when its value is empty (or its skip condition holds), and decoding then restores that same value (a raw undefined, which is empty too, comes back as null).",
 ["inputs","programs"],"every map-shaped type, every subset of its fields, every value",
 "Tests check one missing field and null for a list of types at top level; combinations of several missing fields, nesting and custom codecs are not covered.",
 [D,E,DE,DD],[("default decoding of null and undefined",D),("emptiness tests",E),("optional field emission",DE)],["decoded field values","presence of keys in the encoding"])
prop("C13","Enum variants are encoded and dispatched unambiguously",
 "Each enum value is encoded under its own variant's name, rename or discriminant (unit variants bare, others as a one-entry map, internally tagged enums as the variant's map plus the tag entry, embedded variants as the embedded enum itself, the missing-tag variant without tag, skipped variants as undefined), and decoding selects exactly that variant. An item that names no variant, names a skipped one, has not exactly one entry where one is expected, or lacks the tag when no variant stands for a missing tag, is refused with an unknown-field error, and a parent's own variant wins over an embedded one of the same name.",
 ["inputs","programs"],"every enum type the macros accept, every variant, every key and payload",
 "Tests cover one value per attribute in separate enums; mixes of unit, tuple, struct, embedded, skipped and tagged variants and wrong keys are not.",
 [DE,DD],[("variant encoders",DE),("variant decoders, embedded fallbacks and tag extraction",DD)],["encoded bytes","selected variant or error"])
prop("C14","Encoding is a function of the value alone",
 "Two Rust values that compare equal always encode to identical bytes, whatever the insertion order, removal history, capacity or hash seed of their maps and sets, whichever entry point (bytes or in-memory value, core or serde) is used, and however often it is repeated; only hashed sets serialised through serde are excepted, because serde presents them as sequences in iteration order. The bytes of a hashed map or set equal those of the ordered map with the same content.",
 ["histories","inputs"],"every construction history of equal values",
 "Tests encode one two-entry hash map once; iteration order of hashed collections varies from instance to instance.",
 [E,W,SS],[("canonical sorting of map keys",W),("encoding of hashed collections",E)],["encoded bytes of equal values"])
prop("C15","Values round-trip through the serde layer",
 "Serialising any value of a serde-derived type built from integers up to 64 bits, unsigned 128-bit, bool, char, strings, byte buffers, options, sequences, tuples, maps, structs and enums of all variant kinds yields canonical CBOR of the documented shape, and deserialising it yields an equal value, both via bytes and via the in-memory value. Structs and enum payloads follow declared field names as text keys. Duplicate map keys and excessive nesting are reported as errors, not panics.",
 ["inputs","programs"],"every such type, every value of it",
 "The serde tests use about twenty concrete types with one value each.",
 [SS,SD,SM],[("serializer",SS),("deserializer",SD)],["encoded bytes","deserialised value"])
prop("C16","Serde and core encodings of compatible types are interchangeable",
 "For any type that derives both codecs without renaming, explicit discriminants or byte-sequence fields, the two layers produce identical bytes and identical in-memory values, and each decodes what the other encoded to the same Rust value.",
 ["inputs","programs"],"every type in that class, every value of it",
 "The existing compatibility tests check one value for each of about fifteen types.",
 [SS,SD,E,D,DE,DD],[("serializer reuses the core scalar encoders",SS),("derive shapes match serde's data model",DE)],["bytes of both layers","cross-decoded values"])
prop("C17","The serde layer never silently alters or drops data",
 "Deserialising an integer into any integer type yields exactly that integer or an error, over the whole CBOR range from -2^64 to 2^64-1. Floats and tags are refused with an error in both directions they can occur, a sequence with more or fewer elements than a tuple, tuple struct or tuple variant expects is refused, and an item of the wrong kind, an unknown enum variant or invalid or non-canonical bytes are refused, always with an error and never with a panic. Excepted are only the leniencies of serde itself: UTF-8 byte strings for strings, undefined for null, indices or bytes for field and variant names, null as the payload of a unit variant.",
 ["inputs"],"every CBOR item crossed with every serde target type",
 "Only one float case is tested as a failure; no integer boundary, tag or surplus element is.",
 [SD,SS,SE],[("integer visitors",SD),("sequence access",SD)],["deserialised value or error"])
prop("C18","Value-building helpers and map destructuring are faithful",
 "Building values with the provided macros and conversions (integers, text, bytes, booleans, arrays, maps, maps with optional entries, tags, simple values) yields exactly the value trees written down, entries with an absent optional value being left out. Destructuring a map whose entries and requested keys are in canonical order yields for each key its value if present and nothing otherwise, regardless of the other entries.",
 ["inputs"],"every list of keys and values, every subset requested",
 "The unit tests use fixed literals and two or three keys.",
 [VM,V],[("single linear scan over sorted entries",VM),("conversion impls",V)],["resulting value tree","extracted values"])
prop("C19","Contradictory derive attributes are refused at compile time",
 "A type definition whose attributes contradict each other or cannot be honoured is rejected by the derive macros with a compile error: transparent on an enum or a non-newtype, no_default with with_default, untagged with tag, decoding an untagged enum, conditional skipping of array elements, embedding a non-newtype variant or embedding in a tagged enum, array-shaped variants in a tagged enum, content of a tagged enum's newtype variant that does not always encode as a map, several variants standing for a missing tag, and unknown attributes. The same definition with the offending attribute removed compiles.",
 ["programs"],"every type definition with such a combination, whatever its other fields, variants and attributes",
 "No test compiles an invalid definition; accepting one would silently generate a wrong codec.",
 [DC,DD,DE],[("attribute validation",DC),("diagnostics in the generators",DD+", "+DE)],["compiler exit status"])
prop("C20","Derived code works wherever the type is declared",
 "A supported type definition compiles and derives exactly the encoding and decoding its text selects, whatever surrounds it: the name under which the library is imported, items in scope that are called like the library's own types, traits and modules, a surrounding macro that supplies its name and field types, type and const parameters with bounds or where clauses, and fields and variants named by raw identifiers (on the wire without the prefix, as in serde) or like names the generated code uses itself.",
 ["programs","inputs"],"every supported definition in every such surrounding, every value of it",
 "The tests derive plain types in one module of one crate, which imports the library under its own name.",
 [DC,DD,DE,"derive/src/util.rs"],[("crate name resolution","derive/src/util.rs"),("names in the generated code",DD+", "+DE)],["compiler exit status","encoded bytes","decoded value"])
prop("C21","The work stays proportional to the data",
 "Reading, writing, comparing, decoding into any type and encoding any value take work (steps executed, memory handed out in total, processor time) that grows in proportion to the size of the data, up to the logarithm that sorting needs and a factor for the nesting depth: never with the square of the number of elements, entries, keys or bytes, and never exponentially with the depth. This holds for accepted as well as refused input, strict and non-strict, canonical or hostile, in both codec layers. Excepted are only enums that embed several others which share a variant name, as each level may try them all.",
 ["inputs"],"every byte string, every value of every type",
 "Unit tests use items of a few bytes, for which quadratic and linear work cannot be told apart; untrusted input of some hundred kilobytes turns the difference into a denial of service.",
 [R,W,V,D,E,DD,SD,SS],[("array and map readers",R),("sorting of map entries",W),("entry access of derived decoders",DD),("map and sequence access",SD)],["steps, bytes allocated and CPU time per call"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
