"""What each property's check runs."""
ALL_BINS = ["raw", "typed", "serdez"]
ZOO_BINS = {"typed", "serdez"}
# Properties about what holds for every valid type: these report it when valid types are refused.
TYPE_PROPS = {"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20"}
ASSUMPTIONS = [
    "generated-input search: a violation outside the explored inputs can remain",
    "the reference model of canonical CBOR in harness/refmodel is right (it shares no code with /repo)",
    "64-bit little-endian host; the crates are built with overflow checks and debug assertions",
]


def zoo_seeds(seed, tier):
    n = 1 if tier == "quick" else 8
    return [(seed * 101 + i * 37) % (1 << 31) for i in range(n)]


PROPS = {
    "C01": dict(bins=["raw"], mult=dict(raw=300), rule="Generated canonical encodings, the same with exactly one injected defect, near-canonical mutants, and coverage-guided raw bytes, each judged by the reference strict decoder at generated nesting limits. Non-trivial: more than one byte and either accepted, or refused for a named single defect, or an input the guided search keeps; distinct by the bytes."),
    "C02": dict(bins=["raw"], mult=dict(raw=200), rule="Generated and coverage-guided byte strings; every accepted one is re-encoded and compared, and pairs of distinct accepted neighbours are compared. Non-trivial: accepted inputs of more than one byte; distinct by the bytes."),
    "C03": dict(bins=["raw"], mult=dict(raw=110), rule="Generated value trees, entry orders, duplicate keys and buffer prefixes, judged by the reference encoder. Non-trivial: trees of more than two items (or a duplicate key placed at depth); distinct by the tree."),
    "C04": dict(bins=["raw"], mult=dict(raw=700), rule="Generated pairs and triples of values biased to near neighbours; the order is judged against byte-wise comparison of reference encodings. Non-trivial: values differ, or are equal while built separately; distinct by the pair."),
    "C05": dict(bins=["raw", "typed"], mult=dict(raw=300, typed=250), rule="Generated sloppy encodings, canonical encodings, mutants and coverage-guided bytes, judged by the reference lenient decoder, by agreement with strict decoding (raw values and every generated target type), and against the C entry point. Non-trivial: more than one byte; distinct by the bytes and target."),
    "C06": dict(bins=["raw", "typed", "serdez"], mult=dict(raw=300, typed=250, serdez=250), rule="Hostile bytes (noise, announced lengths, deep and long repetition, large well-formed input) through every decoding entry point under a counting allocator, and arbitrary in-memory values into every generated type, core and serde. Non-trivial: more than one byte or item; distinct by the input and target."),
    "C07": dict(bins=["raw", "typed", "serdez"], mult=dict(raw=500, typed=400, serdez=400), rule="Generated nests of arrays, maps (key and value side) and tags, decoded and encoded at limits around their depth, raw and through recursive and open-ended types of both codecs. Non-trivial: depth above zero; distinct by the encoding and limit."),
    "C08": dict(bins=["typed"], mult=dict(typed=1500), rule="Generated items (boundary integers of every width, byte strings around 16 bytes, text, other kinds) into every scalar type, and every scalar back. Non-trivial: the item denotes an integer, text or bytes; distinct by item and type."),
    "C09": dict(bins=["typed"], mult=dict(typed=500), rule="Generated compositions of built-in types (nesting of sequences, arrays, tuples of 1 to 10, options, maps, sets) with generated values, judged by the reference encoder, through bytes and in-memory values. Non-trivial: values of more than one item; distinct by type and encoding."),
    "C10": dict(bins=["typed"], mult=dict(typed=600), rule="Generated derived structs and enums in random combinations of attributes (a new set per seed) with generated values, judged by the schema's reference encoder. Non-trivial: values of more than one item; distinct by type and encoding."),
    "C11": dict(bins=["typed"], mult=dict(typed=700), rule="Encodings of generated types with added, removed, repeated and misplaced entries and elements, judged by the schema's reference decoder. Non-trivial: the mutant differs from the valid encoding; distinct by type and item."),
    "C12": dict(bins=["typed"], mult=dict(typed=450), rule="Every way of absence (left out, null, undefined) over generated subsets of fields of generated types, top-level null and undefined, and optional fields with empty and non-empty values. Non-trivial: some field is absent; distinct by type and item."),
    "C13": dict(bins=["typed"], mult=dict(typed=900), rule="Generated enums of every dispatch style with values of every variant, and items built from right, wrong, skipped and foreign variant names and tags, judged by the schema's reference dispatch. Non-trivial: the item names a variant or nearly does; distinct by type and item."),
    "C14": dict(bins=["typed", "serdez"], mult=dict(typed=1200, serdez=800), rule="The same value built several times through different insertion orders, removals, capacities and hash seeds, and generated operation sequences on hashed and ordered collections; all encodings compared. Non-trivial: some collection holds at least two elements; distinct by type and encoding."),
    "C15": dict(bins=["serdez"], mult=dict(serdez=400), rule="Generated serde-derived types with generated values, scripted serialisers (every Serializer method in generated nesting), standard-library types and serde attributes, judged by the reference encoder. Non-trivial: values of more than one item; distinct by type and encoding."),
    "C16": dict(bins=["serdez"], mult=dict(serdez=200), rule="Generated types deriving both codecs with generated values: bytes, in-memory values and cross-decoding of the two layers. Non-trivial: values of more than one item; distinct by type and encoding."),
    "C17": dict(bins=["serdez"], mult=dict(serdez=500), rule="Integers over the whole CBOR range into every integer type in every place, mutants of valid encodings, wrong lengths, tags and floats in generated places, coverage-guided bytes, and a recording visitor that reports what the deserialiser presents. Non-trivial: the input differs from a valid encoding or is an integer; distinct by type and input."),
    "C18": dict(bins=["raw"], mult=dict(raw=700), rule="Generated arguments for the value-building macros and conversions, and generated entry lists and key subsets for destructuring, against trees built by hand. Non-trivial: at least one entry or element; distinct by the arguments."),
    "C19": dict(bins=[], mult={}, runner="compile", technique="property-based testing over generated type definitions, deciding by the compiler's verdict on each and on its repaired twin", rule="Generated type definitions with one contradiction planted among random shapes, derives and harmless attributes (container, variant and field level), each compiled together with its twin without the offending attribute. Non-trivial: every case holds one contradiction; distinct by the definition's text."),
    "C20": dict(bins=["typed"], mult=dict(typed=700), rule="Generated derived types in odd surroundings (library imported under another name, library names taken by other items, made by a macro from name and type arguments, generic) or with odd names (raw identifiers, names the generated code uses), with generated values and mutants of their encodings, judged by the schema's reference encoder and decoder. Non-trivial: values of more than one item, or a mutant that differs from the valid encoding; distinct by type and encoding. Definitions that the compiler refuses are violations."),
    "C21": dict(bins=["raw", "typed", "serdez"], mult=dict(raw=150, typed=250, serdez=600), rule="Items with long arrays, maps (keys of eight kinds), byte strings and texts in generated places, whole, cut, out of order, with over-long heads or followed by more; deep nests with something at every level; hostile repetition and noise: read, written, compared, and decoded into every generated type of both codecs and encoded again, counting executed comparisons (through the coverage instrumentation), bytes allocated in total and CPU time of the thread against a bound proportional to size, its logarithm and the depth, about eight times what the worst case of the unchanged tree needs. Non-trivial: more than one byte; distinct by the bytes and target."),
}

TECHNIQUE = "property-based testing with an independent reference model, plus coverage-guided choice-tape fuzzing"
NOTE = ("Random and coverage-guided search over generated inputs against an explicit oracle; finds violations within the "
        "generated space with high probability but proves nothing about unexplored inputs. Trusts the reference model, the "
        "compiler, and the harness generators.")
NOT_APPLICABLE = {}
