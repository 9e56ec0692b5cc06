"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
from props import PROPS

H = "include/persistence/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, level_note=""):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[H + f for f in files], mechanism=[dict(name=n, where=H + w) for n, w in mech], observe_at=observe or ["return values and exceptions of the public functions"], hook_needed=None),
                  note=level_note))


READ_API = "parse.hpp"
prop("C01", "Writing to text and parsing the text restores the value",
     "For every value of a type that the streaming parser supports (numbers, booleans, strings, enumerations, dates, byte vectors, pointers that are not null, containers, tuples, dictionaries, classes with required, optional, defaulted and inherited members, nested in any way), writing the value to a string succeeds and parsing that string gives back an equal value. Both the form that returns a verdict and the form that throws do so.",
     ["inputs", "programs"], "all values of all supported C++ types, including classes of any shape",
     "The tests round-trip a few dozen literals of a handful of types; combinations of types, boundary values, awkward strings and member names are unbounded.",
     ["write.hpp", "write_all.hpp", "parse.hpp", "parse_all.hpp", "parse_base.hpp", "parse_object.hpp", "parse_vector.hpp", "parse_set.hpp", "parse_map.hpp", "parse_array.hpp", "parse_items.hpp", "parse_enum.hpp"],
     [("stack of typed parse handlers driven by SAX events", "parse_base.hpp"), ("JsonWriter specializations", "write_base.hpp")])
prop("C02", "Serializing to a document and deserializing it restores the value",
     "For every value of a supported type, serializing it to a JSON document succeeds and deserializing the document (or its text, from a string that is copied or moved from) gives back an equal value, however often it is done; the document stands by itself and does not depend on the object it was made from. For variants whose alternatives overlap, the result is the first alternative that accepts the JSON value.",
     ["inputs", "programs"], "all values of all supported C++ types, including variants and shared objects",
     "The tests sample a handful of values; the guarantee is over all types that can be composed and all values.",
     ["serialize.hpp", "serialize_all.hpp", "deserialize.hpp", "deserialize_all.hpp", "deserialize_object.hpp", "deserialize_map.hpp", "deserialize_vector.hpp", "deserialize_set.hpp", "deserialize_tuple.hpp", "deserialize_variant.hpp", "deserialize_pointer.hpp"],
     [("JsonSerializer and JsonDeserializer specializations", "serialize_base.hpp"), ("dispatch by type", "deserialize_base.hpp")])
prop("C03", "Output is well-formed JSON that denotes exactly the value",
     "Whatever the value, the text written and the document serialized are valid JSON by RFC 8259, and denote the value: numbers keep their exact value, strings all their characters (escaped where JSON demands it), sequences their order, objects exactly one member per declared member or dictionary key in declaration order, absent optional members being omitted; what the target string or document held before is replaced.",
     ["inputs", "programs"], "all values of all types that can be written, including output-only types such as string views and raw pointers",
     "Tests compare a few outputs with literals; no independent JSON reader judges arbitrary outputs.",
     ["write_string.hpp", "write_fundamental.hpp", "write_object.hpp", "write_map.hpp", "write_vector.hpp", "write_tuple.hpp", "write_base.hpp", "serialize_string.hpp", "serialize_object.hpp", "serialize_map.hpp", "detail/config.hpp"],
     [("string and number formatting", "write_base.hpp"), ("member enumeration", "object_members.hpp")])
prop("C04", "Direct text output and document output are the same",
     "For every value, writing directly to text and serializing to a document that is then turned into text produce the same text; if one of them fails, so does the other, with the same kind of error.",
     ["inputs", "programs"], "all values of all types, including those without JSON representation",
     "The two paths are separate code for each type and are only compared on a few literals.",
     ["write_all.hpp", "serialize_all.hpp", "write.hpp", "serialize.hpp"],
     [("parallel specializations of JsonWriter and JsonSerializer", "write_all.hpp")])
prop("C05", "Streaming parser and document deserializer agree",
     "For every type that both readers support and every text without duplicate or undeclared members and without back-references, the streaming parser and the deserializer either both accept, with equal results, or both reject.",
     ["inputs", "programs"], "all texts, well-formed or not, for all types supported by both readers",
     "The two readers share no code per type; tests sample each with different, mostly valid inputs.",
     ["parse_all.hpp", "deserialize_all.hpp", "parse_fundamental.hpp", "deserialize_fundamental.hpp", "parse_object.hpp", "deserialize_object.hpp"],
     [("parallel specializations of JsonParser and JsonDeserializer", "parse_all.hpp")])
prop("C06", "Reading accepts exactly the JSON that fits the type",
     "A read succeeds exactly if the text is well-formed and its JSON value fits the type: right kind of value everywhere, integers in range, required members present, fixed-length sequences of the right length, strings that are valid dates, names or Base64 where these are expected; undeclared object members are rejected by the parser and ignored by the deserializer. On success, the object holds what the text denotes, with absent optional members empty.",
     ["inputs", "programs"], "all JSON texts for all types",
     "Tests cover few mismatches; acceptance is a predicate over all texts and types, where one missing check in one specialization goes unnoticed.",
     ["parse_base.hpp", "parse_object.hpp", "parse_array.hpp", "parse_fundamental.hpp", "deserialize_fundamental.hpp", "deserialize_object.hpp", "deserialize_array.hpp", "deserialize_tuple.hpp", "deserialize_vector.hpp", "deserialize_check.hpp"],
     [("type checks per specialization", "deserialize_check.hpp"), ("event handlers that refuse events of the wrong kind", "parse_base.hpp")])
prop("C07", "Numbers are never truncated, wrapped or read out of range",
     "An integer type accepts exactly the integer literals in its range, at any position in a structure; floating-point types accept every decimal fraction within their range and reject those beyond instead of yielding infinity; every number of every arithmetic type that is written is read back as the same number.",
     ["inputs"], "all numeric literals and all values of all arithmetic types, in both readers",
     "Limits differ per type, signedness and reader; tests cover some limits of some types.",
     ["detail/numeric_traits.hpp", "parse_fundamental.hpp", "deserialize_fundamental.hpp", "write_fundamental.hpp", "serialize_fundamental.hpp", "number.hpp"],
     [("range predicate", "detail/numeric_traits.hpp"), ("number event handlers", "parse_fundamental.hpp")])
prop("C08", "Errors are reported the same way by every form of a function",
     "The form of a read function that takes a target returns false exactly where the form that returns the object throws, and itself never throws; on success both give equal objects. What is thrown for malformed text is a parse error, and for well-formed JSON that does not fit the type it is a parse error (streaming parser) or a deserialization error (deserializer), with a message that is not empty; no other exception escapes.",
     ["inputs", "programs"], "all texts for all types and all overloads",
     "Both forms are separate instantiations with separate branches in each specialization; tests exercise few failing branches.",
     ["exception.hpp", "parse.hpp", "deserialize.hpp", "deserialize_object.hpp", "deserialize_base.hpp", "write.hpp", "serialize.hpp"],
     [("branches on the exception policy in each deserializer", "deserialize_base.hpp"), ("conversion of failure to exception", "parse.hpp")])
prop("C09", "Errors name the place of the offending value",
     "When a well-formed text does not fit the type, the deserialization error carries the JSON pointer (with escapes) of a value that does not fit, and the parse error an offset at or within such a value or its key.",
     ["inputs", "programs"], "all ill-typed texts for all types",
     "Tests check the path or offset of a handful of errors; each level of nesting and each container contributes its own segment.",
     ["detail/path.hpp", "detail/segment.hpp", "detail/deserialize_context.hpp", "deserialize_object.hpp", "deserialize_map.hpp", "deserialize_vector.hpp", "deserialize_tuple.hpp", "parse.hpp", "parse_base.hpp"],
     [("chain of path segments", "detail/segment.hpp"), ("reader position at failure", "parse.hpp")])
prop("C10", "No input text can crash or hang a reader, or pass as JSON if malformed",
     "For every sequence of bytes and every target type, both readers return or throw a documented exception in bounded time without reading or writing memory out of bounds, and they reject every text that is not well-formed JSON, including text followed by anything but white space (a raw NUL byte ends the text).",
     ["inputs", "programs"], "all byte sequences, for all types",
     "Memory safety on hostile input is a statement over all inputs; the tests use well-formed ones.",
     ["parse.hpp", "parse_base.hpp", "deserialize.hpp", "utility.hpp", "detail/polymorphic_stack.hpp", "detail/config.hpp"],
     [("RapidJSON reader with strict flags", "parse.hpp"), ("handler stack", "detail/polymorphic_stack.hpp")])
prop("C11", "Base64 encoding and decoding are exact inverses",
     "Every sequence of bytes, of any length and at any alignment, is encoded as canonical padded Base64 by RFC 4648, without reading outside the sequence; decoding gives back exactly those bytes, and every string that is not Base64 (length, alphabet, misplaced or missing padding) is rejected. Byte vectors in objects are written and read that way.",
     ["inputs"], "all byte sequences and all strings",
     "Tests encode a few dozen strings; word-wise processing makes behaviour depend on length, alignment and content of the tail.",
     ["base64.hpp", "bytes.hpp", "write_bytes.hpp", "serialize_bytes.hpp", "parse_bytes.hpp", "deserialize_bytes.hpp"],
     [("lookup tables and blocks of characters", "base64.hpp")])
prop("C12", "Date-times are formatted and parsed by the calendar",
     "Every whole-second point in time of the representable range is written as its ISO 8601 UTC date-time, and that text reads back as the same point in time; a text is accepted only if it is a date-time that exists, in a supported notation and range, and then denotes exactly that time.",
     ["inputs"], "all whole-second time points and all strings",
     "Tests use a handful of dates; leap years, month ends, years before 1970 and malformed digits are a large space.",
     ["datetime.hpp", "write_datetime.hpp", "serialize_datetime.hpp", "parse_datetime.hpp", "deserialize_datetime.hpp"],
     [("date-time formatting and parsing", "datetime.hpp")])
prop("C13", "Calendar dates are formatted and parsed by the calendar",
     "Every existing date of the years 0 to 9999 is written as YYYY-MM-DD and read back as the same date; a date that does not exist is not written, and a text is accepted as a date only if it has this form and the date exists.",
     ["inputs"], "all year, month, day triples and all strings",
     "Tests use a handful of dates; the 3.65 million dates and near-dates are not enumerated.",
     ["datetime.hpp", "write_date.hpp", "serialize_date.hpp", "parse_date.hpp", "deserialize_date.hpp"],
     [("date formatting and parsing", "datetime.hpp")])
prop("C14", "Shared objects are written once and sharing is restored",
     "When several shared pointers of a value point to the same object, the output holds the object once, at its first occurrence, and at every other occurrence a back-reference whose JSON pointer resolves, in that output, to the first; objects that are not shared are written in full, even if equal or at the same address. Deserializing gives pointers that coincide exactly where they did.",
     ["inputs", "programs"], "all acyclic object graphs with shared pointers in members, containers, dictionaries with any keys, base classes and variants",
     "Tests have a few graphs with plain member names; paths depend on position, nesting and characters of keys.",
     ["detail/references.hpp", "detail/output_context.hpp", "write_pointer.hpp", "serialize_pointer.hpp", "deserialize_pointer.hpp", "detail/deserialize_context.hpp", "detail/path.hpp", "detail/segment.hpp"],
     [("registry of addresses and paths", "detail/references.hpp"), ("registry of objects read", "detail/deserialize_context.hpp")])
prop("C15", "A back-reference never yields a wrong object",
     "A back-reference in the input is accepted only if it is a string that resolves, as a JSON pointer, to an object that was read earlier through a shared pointer of the same type, and then gives that very object; any other back-reference is reported as an error, without crash or memory error.",
     ["inputs"], "all texts with back-references, malformed, dangling, forward or to values of another type",
     "Tests have valid references only.",
     ["deserialize_pointer.hpp", "detail/deserialize_context.hpp", "deserialize_variant.hpp"],
     [("resolution of a reference", "deserialize_pointer.hpp"), ("registry of objects read", "detail/deserialize_context.hpp")])
prop("C16", "A variant takes its first alternative that accepts the JSON value",
     "Reading a variant stores the first alternative, in the order of declaration, as which the JSON value can be read, with the value that alternative reads, unaffected by alternatives tried before; it fails exactly if no alternative accepts. Writing a variant writes the alternative it holds.",
     ["inputs", "programs"], "all texts for variants with disjoint, overlapping and nested alternatives",
     "Which alternative accepts depends on deep content; tests have a few shallow cases.",
     ["deserialize_variant.hpp", "serialize_variant.hpp", "write_variant.hpp"],
     [("trial of alternatives", "deserialize_variant.hpp")])
prop("C17", "Class members are matched by exact name, in any order",
     "For every class, whatever the number and names of its members, each object member is assigned to the class member of exactly that name (and to no other), in whatever order the text has them; missing required members are an error, missing optional members become empty, missing members with default keep it; base class members are treated like own ones. Output has exactly the members, by their names, in declaration order, base first.",
     ["inputs", "programs", "configurations"], "all classes (sets of member names, kinds and types) and all objects read into them",
     "Member lookup is generated per class at compile time, by a hash whose parameters depend on the names; tests have a handful of classes.",
     ["object.hpp", "object_members.hpp", "object_reflection.hpp", "parse_object.hpp", "deserialize_object.hpp", "write_object.hpp", "serialize_object.hpp", "detail/perfect_hash.hpp", "detail/bitset.hpp"],
     [("perfect hash of member names", "detail/perfect_hash.hpp"), ("special cases for few members", "parse_object.hpp")])
prop("C18", "Enumerations map to their names or integers, and back, exactly",
     "An enumeration with names is written as the name of its value and read from exactly those names; an enumeration without names is written as its integer and read from integers of its underlying type only. Any other string, letter case, prefix, number or kind of value is rejected.",
     ["inputs"], "all values of enumerations of each kind and all texts",
     "Tests read each name once; rejection is over all other strings.",
     ["enum.hpp", "enum_utility.hpp", "write_enum.hpp", "serialize_enum.hpp", "parse_enum.hpp", "deserialize_enum.hpp"],
     [("conversion traits", "enum.hpp"), ("conversion table", "enum_utility.hpp")])
prop("C19", "The generated JSON schema describes what is written",
     "For every type that has a schema, every value that is written validates against the schema of its type, with all references in the schema resolved; JSON values that the reader rejects because of a wrong kind of value, a missing required or an undeclared member, an integer out of range, the length of a fixed-size sequence, or a string that is not the date, date-time or Base64 text that its member calls for (keywords format and contentEncoding read as constraints) do not validate, nor does a set that lists an item twice. The schema is well-formed JSON, finite even for recursive types, and the same whenever it is generated.",
     ["inputs", "programs"], "all types and all their values",
     "Tests compare a few schemas with literals, never values with schemas.",
     ["schema.hpp", "schema_utility.hpp"],
     [("schema generation by type", "schema.hpp"), ("shared definitions", "schema.hpp")])
prop("C20", "Values without JSON representation are refused, not misrepresented",
     "If any part of a value has no JSON representation (infinity, not-a-number, a date that does not exist), at any depth and position, the output functions return false or throw a serialization error, and never give text or a document with that part missing or replaced; if every part has one, they succeed.",
     ["inputs", "programs"], "all values with such parts at any position",
     "The failure has to be passed on by each kind of container; tests do not have such values.",
     ["write_fundamental.hpp", "serialize_fundamental.hpp", "write_date.hpp", "serialize_date.hpp", "write_object.hpp", "serialize_object.hpp", "write_vector.hpp", "serialize_vector.hpp", "write_map.hpp", "serialize_map.hpp", "write_tuple.hpp", "serialize_tuple.hpp"],
     [("propagation of failure", "write_base.hpp")])
prop("C21", "Deeply nested values are read in full or refused cleanly",
     "Recursive values of up to 16 nested levels are written and read back in full by both readers. For deeper ones the streaming parser either gives the complete value or fails with a parse error, and every state it created on the way is destroyed exactly once, whatever the history of nesting.",
     ["inputs", "histories"], "all nesting depths and all histories of entering and leaving values",
     "Tests nest two or three levels; capacity and destruction of the handler stack depend on the history of pushes and pops.",
     ["detail/polymorphic_stack.hpp", "parse_base.hpp", "parse.hpp"],
     [("stack of parse handlers in fixed storage", "detail/polymorphic_stack.hpp")])
prop("C22", "Concurrent operations do not affect each other",
     "Reading, writing and schema generation, called from several threads on distinct targets (sources may be shared for reading), give the results they give alone, without data races, including first uses that coincide.",
     ["schedules", "inputs"], "all interleavings of operations on distinct targets",
     "The tests are single-threaded.",
     ["datetime.hpp", "schema.hpp", "detail/references.hpp", "parse_object.hpp"],
     [("absence of shared mutable state", "datetime.hpp")])
prop("C23", "The result of a read does not depend on what the target held before",
     "After a successful read into an object that already held a value, perhaps from reads before that succeeded or failed midway, the object equals what the same read gives in a newly constructed object, and the verdict is the same. (A member with default that the text omits keeps what it held if it is directly part of the target; items, optionals, pointees and variant alternatives are created by the read and start from their defaults.)",
     ["inputs", "histories"], "all texts, previous contents and histories of reads into one object",
     "Tests read into fresh objects.",
     ["parse_vector.hpp", "parse_set.hpp", "parse_map.hpp", "parse_items.hpp", "parse_object.hpp", "parse_pointer.hpp", "deserialize_vector.hpp", "deserialize_set.hpp", "deserialize_map.hpp", "deserialize_object.hpp"],
     [("reset of the target before items are read", "parse_vector.hpp"), ("reset of absent optional members", "deserialize_object.hpp")])
prop("C24", "Texts and documents convert into each other without loss",
     "A text is converted to a document without error exactly if it is well-formed JSON; the document stays valid after the text is gone, and converted back to text it denotes the same value, with members and items in the same order.",
     ["inputs"], "all texts",
     "Tests use the conversions on a few literals.",
     ["utility.hpp"],
     [("conversion functions", "utility.hpp")])
prop("C25", "Operations leave their sources alone and can be repeated",
     "Writing an object, serializing it, and reading from a string (other than one moved from) or document do not change the object, string or document they read from, whether they succeed or fail; the same operation, repeated in any sequence with others, gives the same result.",
     ["inputs", "histories"], "all sequences of operations on one object, text and document",
     "Tests call each function once per object.",
     ["write.hpp", "serialize.hpp", "parse.hpp", "deserialize.hpp", "utility.hpp"],
     [("const sources, state local to the call", "write.hpp")])
prop("C26", "Operations retain no memory",
     "When an operation is over, whether it succeeded or failed, and the objects it produced are gone, all memory it allocated has been released, and none twice.",
     ["inputs", "programs"], "all values and texts, valid or not",
     "Tests run without leak detection and rarely fail midway.",
     ["parse_pointer.hpp", "deserialize_pointer.hpp", "detail/polymorphic_stack.hpp", "parse_base.hpp", "detail/references.hpp", "serialize.hpp"],
     [("handler stack destroys what it holds", "detail/polymorphic_stack.hpp")])
prop("C27", "Running out of memory midway does no damage",
     "When a memory allocation of C++ (operator new) fails at any point of a write, serialization, parse, deserialization or schema generation, std::bad_alloc reaches the caller, from either form of the function; nothing is leaked, released twice or used after its release; the sources are unchanged, the target can be destroyed or used again, and the same operation performed once more gives the same result as if nothing had happened.",
     ["inputs", "fault_sequences"], "all values and texts, and all allocations that an operation performs",
     "No test injects faults; exceptions from the middle of a read pass through handlers that were never meant to end early.",
     ["detail/polymorphic_stack.hpp", "parse_base.hpp", "parse.hpp", "parse_pointer.hpp", "deserialize_pointer.hpp", "deserialize_variant.hpp", "write.hpp", "serialize.hpp", "schema.hpp", "detail/references.hpp"],
     [("handler stack registers objects after their construction", "detail/polymorphic_stack.hpp"), ("ownership by smart pointers and containers", "deserialize_pointer.hpp")])
prop("C28", "Cost grows in proportion to size",
     "For every type, the time and memory that writing, serializing, parsing and deserializing take, whether they succeed or fail, grow no faster than the size of the value or text times its logarithm: with the number of items of an array, of entries of a dictionary, of members of an object (declared or not), of shared objects and back-references, and with the length of strings, keys, byte sequences and number literals. (Nesting depth, and resolving back-references whose path leads through a dictionary with many entries, are excepted.)",
     ["inputs"], "all types, and all sizes at a given nesting",
     "Tests measure a few lists of fixed size; growth is a relation between inputs of any shape.",
     ["deserialize_vector.hpp", "deserialize_map.hpp", "deserialize_set.hpp", "parse_vector.hpp", "parse_set.hpp", "parse_map.hpp", "parse_object.hpp", "serialize_vector.hpp", "serialize_map.hpp", "write.hpp", "detail/references.hpp", "base64.hpp", "parse_string.hpp"],
     [("items are appended to containers that grow geometrically", "deserialize_vector.hpp"), ("table of shared objects is a balanced tree", "detail/references.hpp"), ("members are looked up by hash", "detail/perfect_hash.hpp")])
prop("C29", "Types that a user adds work everywhere",
     "A type for which a user specializes JsonWriter, JsonSerializer, JsonParser and JsonDeserializer (with or without use of the context, possibly in terms of other types) can be used wherever the types of the library can: alone, as class member (required, optional, with default), item of any container or tuple, dictionary value, alternative of a variant, and behind unique and shared pointers. The other properties then hold as well: values are restored, its refusal to write or read a value is passed on and leads to the failure of the whole operation, errors name the place, and shared objects are written once.",
     ["inputs", "programs"], "all values, texts and positions of such types",
     "The tests use the types of the library only.",
     ["write.hpp", "serialize.hpp", "deserialize.hpp", "parse_base.hpp", "parse_items.hpp", "write_vector.hpp", "deserialize_variant.hpp", "parse_vector.hpp", "parse_set.hpp", "parse_map.hpp", "object_members.hpp"],
     [("context is passed to specializations that ask for it", "write.hpp"), ("items are delegated to the specialization of their type", "parse_vector.hpp")])

NOTE = {
    "C22": "ThreadSanitizer over generated operation mixes; schedules are those the machine produces, in many short processes.",
}

with open("properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        p = dict(p)
        p.pop("note")
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for p in sorted(P, key=lambda p: p["id"]):
    c = PROPS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                       technique="property-based testing: " + c["oracle"], level="exploration", level_note=NOTE.get(p["id"], "Random search over generated cases with shrinking; not exhaustive. " + c["cases"])))
assert sorted(PROPS) == [c["property"] for c in checks]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo. Every check compiles its harness against /repo/include and searches with a choice-sequence engine that records, replays and shrinks. See DESIGN.md and known_findings.txt.")
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
