"""What each check generates, compares against, and builds."""

COMMON_ASSUMPTIONS = [
    "clang 18 on x86-64 Linux with libstdc++ and RapidJSON 1.1.0 as installed; sanitizer instrumentation does not change behaviour",
    "the reference JSON reader, encoder and decoder of the harness (json.cpp, meta.hpp) are right",
]

BASE = ["main", "engine", "json", "zoo_util"]
IO = BASE + ["zoo_io"]
READ = BASE + ["zoo_read", "int_num:stub", "int_hash:stub"]
S = lambda q, t=420: {"quick": q, "thorough": t}

VALUES = "Values of a fixed set of C++ types (every supported kind, alone and nested) and of classes generated from the seed, with boundary-biased contents."
TEXTS = "JSON texts for a fixed set of C++ types and for classes generated from the seed: encodings of generated values in varied notation, one to three structural mutations of them, reordered members, unrelated JSON, and damaged bytes."

PROPS = {
    "C01": dict(need=["WRITE", "PARSE"], all=["F_PARSE"], seeded=8, tus=IO, probe=["probe"], seconds=S(20), cases=VALUES, oracle="round trip: parse(write_to_string(x)) equals x, in both forms of each function, and again after a second trip"),
    "C02": dict(need=["WRITE", "SER", "DOM"], all=["F_DOM"], seeded=6, variants=2, tus=IO, probe=["probe"], seconds=S(20), cases=VALUES, oracle="round trip: deserialize(serialize_to_document(x)) equals x in all forms; with variants, equals the reference decoder's reading"),
    "C03": dict(need=["WRITE", "SER"], seeded=8, tus=IO, seconds=S(20), cases=VALUES, oracle="strict RFC 8259 reader of the harness, then comparison with the reference encoding of the value"),
    "C04": dict(need=["WRITE", "SER"], seeded=8, variants=2, tus=IO, seconds=S(20), cases=VALUES + " One in four holds something that JSON cannot represent.", oracle="differential: both outputs give the same text, or both fail with the same kind of error"),
    "C05": dict(need=["PARSE", "DOM"], all=["F_PARSE", "F_DOM"], seeded=6, tus=READ, seconds=S(20), cases=TEXTS, oracle="differential: both readers accept with equal results, or both reject"),
    "C06": dict(need=["PARSE", "DOM"], seeded=6, variants=3, any=["F_PARSE", "F_DOM"], tus=READ, probe=["probe"], seconds=S(25), cases=TEXTS, oracle="reference decoder: same verdict and same value"),
    "C07": dict(need=["WRITE", "PARSE", "DOM"], any=["F_NUM"], seeded=0, tus=BASE + ["zoo_read", "int_num:O0", "int_hash:stub"], probe=["probe"], seconds=S(25), cases="Numbers at and around the limits of every arithmetic type, in integer, fraction and exponent notation, as root values and inside containers and classes; the conversion of number literals and the range predicate directly.", oracle="reference decoder with exact integer ranges and correctly rounded fractions; exact round trip; mathematical definition of representability"),
    "C08": dict(need=["WRITE", "SER", "PARSE", "DOM"], all=["F_DOM"], none=["F_HEAVY"], seeded=2, tus=READ, seconds=S(20), cases=TEXTS, oracle="the form that returns a verdict and the form that throws agree; the kind of exception follows from whether the text is well-formed JSON by the reference reader"),
    "C09": dict(need=["PARSE", "DOM"], any=["F_PARSE", "F_DOM"], seeded=4, variants=3, tus=READ, seconds=S(25), cases=TEXTS, oracle="the set of offending values (path and byte span) found by the reference decoder contains the reported one"),
    "C10": dict(need=["PARSE", "DOM"], any=["F_PARSE", "F_DOM"], seeded=2, tus=READ, seconds=S(25), cases="Token soup, random bytes, nesting beyond any type, and damaged encodings of generated values.", oracle="strict RFC 8259 reader: malformed text is always rejected, with a parse error; AddressSanitizer; a processor time limit per case"),
    "C11": dict(need=["WRITE", "SER", "PARSE", "DOM"], any=["F_BYTES"], seeded=0, tus=BASE + ["direct", "int_stack:stub"], seconds=S(20), cases="Byte sequences of 0 to 3000 bytes, some of up to 200 000, at any alignment, and strings that are Base64 or nearly so.", oracle="independent Base64 encoder and decoder after RFC 4648"),
    "C12": dict(need=["WRITE", "SER", "PARSE", "DOM"], any=["F_DATE"], seeded=0, tus=BASE + ["direct", "int_stack:stub"], seconds=S(20), cases="Stretches of consecutive points in time over the representable range, and texts that are ISO 8601 or nearly so.", oracle="independent proleptic Gregorian calendar arithmetic"),
    "C13": dict(need=["WRITE", "SER", "PARSE", "DOM"], any=["F_DATE"], seeded=0, tus=BASE + ["direct", "int_stack:stub"], seconds=S(20), cases="All days, existing or not, of random years from 0 to 9999, and texts that are dates or nearly so.", oracle="independent proleptic Gregorian calendar arithmetic"),
    "C14": dict(need=["WRITE", "SER", "DOM"], any=["F_SHARED"], seeded=0, tus=BASE + ["zoo_ref"], seconds=S(20), cases="Object graphs with shared pointers, in which a pointer reuses an earlier object with probability one half.", oracle="reference encoder of back-references; resolution of each reference in the text; equality that includes which pointers coincide"),
    "C15": dict(need=["WRITE", "DOM"], any=["F_SHARED"], seeded=0, tus=BASE + ["zoo_ref"], seconds=S(20), cases="Encodings of such graphs in which one or two nodes are replaced by references to valid, nearly valid, later, foreign or absurd locations.", oracle="reference decoder that tracks which objects exist, of which type, at the time of the reference; AddressSanitizer"),
    "C16": dict(need=["WRITE", "SER", "DOM"], any=["F_VARIANT"], seeded=0, variants=8, tus=READ, seconds=S(20), cases="Texts for variants with overlapping, nested and pointer alternatives.", oracle="reference decoder that takes the first alternative that accepts"),
    "C17": dict(need=["WRITE", "SER", "PARSE", "DOM"], any=["F_CLASS"], none=["F_HEAVY"], seeded=6, tus=BASE + ["zoo_read", "int_num:stub", "int_hash:O0"], seconds=S(25), cases="Objects of fixed and of generated classes with shuffled, dropped, renamed, added, retyped and swapped members; and sets of 1 to 100 random names for the member lookup.", oracle="reference decoder and encoder over an independent list of the members; a lookup finds exactly the names it was built from"),
    "C18": dict(need=["WRITE", "SER", "PARSE", "DOM"], any=["F_ENUM"], seeded=0, tus=READ, seconds=S(20), cases="Enumerations mapped to integers and to names, with texts that are values, other names, prefixes, other letter case, numbers in and out of range.", oracle="reference decoder and encoder over an independent table of names"),
    "C19": dict(need=["WRITE", "SER", "SCHEMA"], all=["F_SCHEMA"], seeded=4, tus=BASE + ["zoo_schema"], probe=["probe"], seconds=S(20), cases=VALUES + " And mutations of their JSON texts.", oracle="JSON Schema validator of the harness: written and conforming values validate, structurally wrong ones do not; the schema is a function of the type"),
    "C20": dict(need=["WRITE", "SER"], any=["F_UNREP"], seeded=4, tus=IO, seconds=S(20), cases="Values of which one or more parts have no JSON representation: infinities, not-a-number, impossible dates.", oracle="reference encoder decides representability"),
    "C21": dict(need=["WRITE", "SER", "PARSE", "DOM"], any=["F_RECURSIVE"], seeded=0, tus=BASE + ["direct", "int_stack"], seconds=S(20), cases="Recursive values of 1 to 140 levels, and push/pop histories of the stack of parse states.", oracle="reference encoding; for the stack, a list as model, with counted lifetimes"),
    "C22": dict(need=["WRITE", "SER", "PARSE", "DOM", "SCHEMA"], none=["F_HEAVY"], seeded=1, san="thread", tus=BASE + ["threads"], seconds=S(24), slices={"quick": 6, "thorough": 60}, cases="Two to four threads that each perform one to five operations (write, serialize, parse, deserialize, schema, document) on generated values and texts which they share for reading; many short processes, so that first uses coincide.", oracle="each result equals that of the same operation performed alone afterwards; ThreadSanitizer reports no data race"),
    "C23": dict(need=["PARSE", "DOM"], any=["F_PARSE", "F_DOM"], seeded=4, variants=3, tus=READ, seconds=S(20), cases=TEXTS + " The target holds another generated value, possibly after earlier reads that failed halfway.", oracle="differential: same verdict and value as with a newly constructed target"),
    "C24": dict(need=[], only=["none"], seeded=0, tus=BASE + ["direct", "int_stack:stub"], probe=["probe"], seconds=S(20), cases="JSON texts of any shape in varied notation, and damaged ones.", oracle="strict RFC 8259 reader; the document denotes the same value as the text, in the same order, and its text is stable"),
    "C25": dict(need=["WRITE", "SER", "PARSE", "DOM"], all=["F_DOM"], none=["F_HEAVY"], seeded=2, tus=IO, seconds=S(20), cases="Histories of two to seven writes and reads on one object, document and text.", oracle="reference encoding of the object before and after; texts and documents before and after; repeated operations give equal results"),
    "C26": dict(need=["WRITE", "SER", "PARSE", "DOM"], all=["F_DOM"], none=["F_HEAVY"], seeded=2, tus=IO, seconds=S(20), cases=VALUES + " And texts as for the readers, valid and not.", oracle="the allocator of AddressSanitizer counts as many live bytes after the operation as before"),
    "C27": dict(need=["WRITE", "SER", "PARSE", "DOM", "SCHEMA"], all=["F_DOM"], none=["F_HEAVY"], seeded=2, variants=1, tus=BASE + ["faults"], seconds=S(20), cases=VALUES + " And texts as for the readers, valid and not. In each case an operation is performed once for each of its memory allocations (24 random ones if there are more), which then fails.", oracle="std::bad_alloc reaches the caller or the result is as without the fault; as many live bytes as before; sources and the result of the same operation afterwards are as before; AddressSanitizer"),
    "C28": dict(need=["WRITE", "SER", "PARSE", "DOM"], all=["F_DOM"], none=["F_HEAVY"], seeded=2, san="", flags=["-fsanitize-coverage=trace-pc", "-fno-builtin"], tus=BASE + ["cost"], seconds=S(20), cases="JSON texts for the types, in which one array, object, string, key or number is extended by n and by 8n items, members, characters or digits, n from 40 to 1500, and the values read from them.", oracle="the costs (basic blocks executed, bytes touched by functions of the C library, bytes allocated, all counted rather than timed) grow by no more than 24 times from the first to the second extension; proportional growth is 8 times, quadratic 64"),
    "C29": dict(need=["WRITE", "SER", "PARSE", "DOM"], custom=True, seeded=0, tus=BASE + ["zoo_io", "zoo_read", "zoo_ref", "int_num:stub", "int_hash:stub", "custom"], seconds=S(20), cases="Values and texts as for the other checks, of structures that hold types added by specializations of JsonWriter, JsonSerializer, JsonParser and JsonDeserializer: a color as string, a switch as boolean, an interval as array with a condition of its own.", oracle="those of C01 to C06, C08 to C10, C14 to C16, C20, C23, C25 and C26"),
}
