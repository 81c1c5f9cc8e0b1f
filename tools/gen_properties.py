#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list; edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Parsing accepts exactly the JSON grammar",
  "With the default configuration every parsing entry point (validation, values, documents; from str and from bytes) accepts a payload if and only if it is one RFC 8259 JSON text, in valid UTF-8, nested at most 128 levels, whose \\u escapes contain no unpaired surrogates. Everything else, including any single-byte deviation, is rejected with an error.",
  ["inputs"], "every byte string (and every str)",
  "The suites check a few hundred fixed files; acceptance is a statement about all byte strings, including every number, literal, escape, whitespace and UTF-8 boundary form.",
  ["src/parser.rs"], [("Tokenizer::read_peek and the read_*_from_source functions", "src/parser.rs"), ("Parser::read_tokens / read_object / read_array / parse_bytes", "src/parser.rs"), ("SAFE_STRING_BYTES tables", "src/string.rs")],
  ["Ok/Err of Parser::validate_json*, Value::from_json*, Document::from_json*"])

p("C02", "The recursion limit is exact and bounds stack use",
  "A payload whose deepest nesting of arrays and objects is d is rejected for depth exactly when a limit L is configured and d > L (so L nested levels always parse, siblings at any level never count twice, and no limit means no depth rejection), and a depth rejection is reported as such. With the default limit, arbitrarily deep hostile nesting is rejected with an error in bounded stack space, never a stack overflow.",
  ["inputs", "configurations"], "every nesting shape (arrays, objects, mixed, siblings, empty containers, trailing commas) and every limit from 0 to the maximum, or none",
  "Tests use limit 19 with one file at depth 19/20 and one 100000-deep file; off-by-one, leak or underflow of the remaining depth shows only for particular shapes and limits.",
  ["src/parser.rs"], [("ParseState::begin_nest / end_nest", "src/parser.rs")],
  ["Ok/Err(RecursionLimitReached) of the *_with_config functions, on a thread with a small stack"],
  [("remaining_depth", "levels of nesting still allowed", "src/parser.rs ParseState")])

p("C03", "Trailing-comma and root-type settings change exactly what they say",
  "With trailing commas allowed, the parser accepts exactly the standard grammar plus one optional comma after the last element of a non-empty array or object; otherwise it accepts none. With all root types disallowed, a payload is accepted exactly when it would otherwise be accepted and its root is an array or object. The settings are independent of each other and of the recursion limit, and each builder method changes only its own setting.",
  ["inputs", "configurations"], "every payload under every combination of settings, at every parsing entry point that takes a configuration",
  "Tests check one trailing-comma document and four bare roots; interactions (nested, empty containers, whitespace, several settings at once, every entry point) are not sampled.",
  ["src/parser.rs", "src/doc.rs", "src/value.rs"], [("ParseConfig", "src/parser.rs"), ("object_is_empty / array_is_empty checks, parse_bytes root check", "src/parser.rs")],
  ["Ok/Err of all *_with_config functions"])

p("C04", "All parsing entry points agree",
  "For the same payload and configuration, validation, value parsing, document parsing (growable or fixed-capacity with room), custom delegates, and their str and bytes variants all accept or all reject; when they reject they report the same error kind and offset; when they accept they report the same root kind and equal contents. Parsing a lone string or number agrees with parsing it as a value, and reports a wrong-type error for any other valid root.",
  ["inputs", "configurations"], "every payload and configuration, across every entry point",
  "Tests compare Value and Document on a few fixed valid documents and never compare errors across entry points.",
  ["src/parser.rs", "src/value.rs", "src/doc.rs", "src/string.rs", "src/number.rs"], [("generic Parser over ParseDelegate and GUARANTEED_UTF8", "src/parser.rs"), ("ValueParser", "src/value.rs"), ("Nodes delegate", "src/doc.rs"), ("StringParser / NumberParser", "src/string.rs, src/number.rs"), ("into_fallable / into_infallable", "src/error.rs")],
  ["results of all entry points on the same input"])

p("C05", "Parsed values mirror the document",
  "A parsed value reproduces the payload's structure exactly: the same kinds at every position, every array element and every object entry present once and in source order (duplicate keys included), and every string, key and number carrying exactly its source text. The kind-specific accessors return the contents for that kind and nothing for all others.",
  ["inputs"], "every accepted payload, of any size and shape",
  "Tests assert a handful of tiny documents; loss, reordering, merging of duplicates or truncation at size thresholds is invisible to them.",
  ["src/value.rs", "src/parser.rs"], [("ValueParser delegate", "src/value.rs"), ("Value::as_* accessors", "src/value.rs")],
  ["Value tree walked through the public accessors"])

p("C06", "Strings decode to exactly the text their JSON denotes",
  "For every parsed string or key, the decoded form (iterated, displayed, or via decode-if-needed) is exactly the sequence of characters RFC 8259 assigns to its escapes and literal characters, including every \\u escape in either hex case and every surrogate pair. The decoded length is the UTF-8 length of that text, and a plain str view is available exactly when the source has no escapes. The string-info type keeps exactly the flag and length it is given, for any length a string can have.",
  ["inputs"], "every valid JSON string literal",
  "Tests decode two surrogate pairs and one example of each short escape; 65k \\u escapes, a million pairs and all combinations and lengths are beyond enumeration by hand.",
  ["src/string.rs", "src/parser.rs"], [("Decoded iterator, merge_surrogate_pair", "src/string.rs"), ("Tokenizer::read_string_escape, JsonStringInfo", "src/parser.rs, src/string.rs")],
  ["JsonString::decoded, decode_if_needed, Display, decoded_len, as_str"],
  [("JsonStringInfo", "has-escapes flag and decoded length", "src/string.rs")])

p("C07", "Any Rust string encodes to JSON text that denotes it",
  "For every Rust string, borrowed or owned, the JSON form produced for it (iterated, displayed, escape-if-needed, or inside serialized output) is a valid JSON string body that denotes exactly that string. The reported encoded length, decoded length and emptiness equal the actual ones, and decoding gives back the original text, which is always available as a plain str; so is the JSON form if nothing needs escaping.",
  ["inputs"], "every Rust string (all Unicode scalar values, all lengths)",
  "Tests encode one string with the common escapes and U+0000; the other control characters and non-ASCII ranges are never encoded.",
  ["src/string.rs"], [("AsJson iterator", "src/string.rs"), ("From<&str> / From<String> analysis", "src/string.rs")],
  ["JsonString::as_json, escape_if_needed, len, decoded_len, is_empty, decode_if_needed"])

p("C08", "Equality, order and hash depend only on content",
  "Two JSON strings compare equal, and hash equally under any hasher, exactly when they denote the same text, and they order by that text as str does; how each is held (parsed with any choice of escapes, or made from a borrowed or owned Rust string) and which side it is on make no difference, and comparing with str agrees. Whole values and documents compare equal exactly when they have the same structure and order with equal strings and identical number text.",
  ["inputs"], "every pair of strings in every pair of representations; every pair of values",
  "Tests compare about twenty hand-picked pairs; equality, order and hash are each implemented by a different match over representations and flags.",
  ["src/string.rs", "src/value.rs", "src/doc.rs", "src/anystr.rs"], [("PartialEq / Ord / PartialOrd / Hash for JsonString", "src/string.rs"), ("derived PartialEq of Value, Object, Node", "src/value.rs, src/doc.rs")],
  ["==, partial_cmp, cmp, hash, use as map and set keys"])

p("C09", "Compact output of a parsed value is its source without whitespace",
  "Serializing a parsed value compactly yields byte for byte the payload with the whitespace between tokens removed (and accepted trailing commas dropped): strings keep their original escapes and numbers their original digits. The same holds when the value is obtained through a document.",
  ["inputs"], "every accepted payload",
  "Three round-trip files; whitespace forms, escape spellings, number spellings, duplicate keys and sizes vary without bound.",
  ["src/value.rs", "src/parser.rs", "src/doc.rs"], [("Value::write_json_value, WriteState", "src/value.rs"), ("StringContents::Json retains source", "src/string.rs")],
  ["Value::to_json after from_json*"])

p("C10", "Built or edited values serialize to JSON that reads back equal",
  "Any value assembled or edited through the public API (from Rust strings, booleans, numbers, arrays and objects, mixed with parsed parts) holds exactly the parts it was given, in order, and serializes, compactly or prettily, to valid JSON that parses back to an equal value. Serializing that value again gives identical text.",
  ["histories", "inputs"], "every sequence of construction and editing operations on a value",
  "Tests build two small objects; the product of construction routes, contents and edits is unbounded.",
  ["src/value.rs", "src/string.rs"], [("From impls, Entry::new, Object FromIterator and DerefMut", "src/value.rs"), ("WriteState", "src/value.rs")],
  ["to_json / to_json_pretty of the built value, reparsed"])

p("C11", "Pretty output has the promised layout and all output routes agree",
  "Pretty output puts every array element and object entry on its own line, indented once per enclosing level, with a colon and space after each key, commas ending lines, empty containers on one line and no trailing line break; the default indentation is two spaces and newline, and custom indentation and line endings are used verbatim. All compact routes (string, writer, display) produce identical bytes, as do all pretty routes, and pretty output with whitespace between tokens removed is the compact output.",
  ["inputs", "configurations"], "every value, every indentation string, every line ending",
  "Three fixed layouts are tested; nesting, empty containers in every position, strings containing layout text and odd indentations are not.",
  ["src/value.rs"], [("WriteState line and indentation tracking", "src/value.rs"), ("Display for Value", "src/value.rs")],
  ["to_json_pretty, to_json_pretty_custom, pretty_write_json_to(_custom), {:#}, to_json, write_json_to, {}"],
  [("is_at_line_start, level", "whether indentation is due, and how much", "src/value.rs WriteState")])

p("C12", "Output failures are reported and leave a clean prefix",
  "If the destination of any serialization or display operation reports a failure at any point, the operation returns an error, does not write again, and what was written before is exactly a prefix of the full output. If the destination never fails, the operation succeeds and the destination has received the full output.",
  ["fault_sequences", "inputs"], "every failure point of the destination, for every value and every output route",
  "No test uses a failing destination.",
  ["src/value.rs", "src/string.rs"], [("? propagation in WriteState and write_json_*", "src/value.rs"), ("Display for AsJson / Decoded", "src/string.rs")],
  ["calls received by a fmt::Write that fails at the k-th byte or call"])

p("C13", "Number conversions are exact",
  "Converting a JSON number to an integer type succeeds exactly when its source is written as a plain integer (no fraction or exponent) whose value fits that type, and an unsigned type also requires no minus sign; the result is that value. Converting to a floating-point type gives the representable value nearest to the exact decimal (ties to even, rounding straight to that type, overflow to infinity, sign of zero kept). Conversions through a value agree with conversions of the number itself and give nothing for non-numbers.",
  ["inputs"], "every JSON number literal and every numeric type",
  "Tests convert the literal 1 (and 0 for floats); boundaries of twelve integer types and correct rounding are untested.",
  ["src/number.rs", "src/value.rs"], [("JsonNumber::parse and as_* macros", "src/number.rs"), ("Value::as_* macros", "src/value.rs")],
  ["as_u8..as_i128, as_usize/isize, as_f32/f64, parse, on JsonNumber and Value"])

p("C14", "Document nodes and cursor describe the payload exactly",
  "A document's nodes are the payload's values and keys in source order, each array and object carrying its exact element or entry count. From any position, reading the next value returns exactly that subtree and skipping it moves to exactly the same place, in any mix and on cloned cursors, with nothing left or lost at the end; converting the whole document gives the same value as parsing it directly.",
  ["inputs", "histories"], "every accepted payload and every sequence of cursor operations",
  "One document and one skip of the root are tested.",
  ["src/doc.rs"], [("Nodes::push_* / extend_*", "src/doc.rs"), ("DocumentIter::next_value / skip_next_value, hydrate_value_from_node", "src/doc.rs")],
  ["GenericDocument::iter and IntoIterator, DocumentIter, From<GenericDocument> for Value"],
  [("Node lengths", "entries or elements following", "src/doc.rs")])

p("C15", "Bounded or failing document storage is reported, never exceeded",
  "Parsing into a fixed-capacity document succeeds exactly when the payload is valid and its node count fits the capacity; a valid payload that does not fit is rejected as too large. If custom node storage refuses any push, parsing stops at once, performs no further pushes and returns that very error; nothing panics, and no node is lost or duplicated.",
  ["fault_sequences", "inputs"], "every payload, every capacity, every push at which the storage may fail and every error it may return",
  "One overflow of a capacity-3 document is tested.",
  ["src/doc.rs", "src/error.rs"], [("NodeCollection::push error propagation", "src/doc.rs"), ("Error::into_infallable", "src/error.rs")],
  ["HeaplessDocument and custom NodeCollection parsing"])

p("C16", "Delegates see the exact event sequence and stop on their first error",
  "A parse delegate receives, in source order, exactly the well-nested event sequence of the payload: begin, key, value and end events with the source's keys, strings, numbers and booleans, each child's result handed to its parent, and on an invalid payload only the events preceding the violation. If the delegate returns an error from any event, no further event is delivered and that very error is returned, at an offset within the text read so far.",
  ["inputs", "fault_sequences"], "every payload and configuration, and every event at which the delegate may fail",
  "One payload with one failure of each event type is tested; order, nesting, arguments and silence after a failure are not observed.",
  ["src/parser.rs"], [("Parser::read_tokens / read_object / read_array", "src/parser.rs")],
  ["calls received by a recording ParseDelegate"])

p("C17", "The tokenizer splits any input into exactly its tokens",
  "The tokenizer yields exactly the JSON tokens of its input in order, each carrying its exact source text, up to the first malformed token, which yields an error; after each token the reported offset is the end of that token. Peeking tells the kind of the next well-formed token, and peeking any number of times anywhere changes nothing about the tokens that follow. Even when iteration continues after errors, offsets never go back and the iteration ends within as many steps as there are bytes.",
  ["inputs", "histories"], "every input and every interleaving of peek, next and next-or-eof",
  "Two one-token inputs and one peek sequence are tested.",
  ["src/parser.rs"], [("Tokenizer::next / next_or_eof / peek / offset", "src/parser.rs"), ("ByteIterator", "src/parser.rs")],
  ["tokens, peeked kinds and offsets"],
  [("ByteIterator::offset", "read position", "src/parser.rs")])

p("C18", "Errors name the first violation and point at it",
  "Every rejection is reported with the documented error kind for the first violation in the payload, read left to right. Its offset lies within the payload, not before the end of the last well-formed token that fits the grammar and not beyond the offending token, an unexpected-character error names the byte found there, and a payload that ends too early is reported at its end (only a disallowed root type is reported at the start).",
  ["inputs", "configurations"], "every rejected payload",
  "About thirty error kinds/offsets are pinned; the remaining combinations of state and offending token are not.",
  ["src/parser.rs", "src/error.rs"], [("Error construction sites", "src/parser.rs"), ("EOF remapping to UnclosedObject / UnclosedArray", "src/parser.rs read_tokens")],
  ["Error::kind and Error::offset"])

p("C19", "No input makes the library panic, abort or hang",
  "For every input, configuration and sequence of public calls, the library returns normally: parsing any bytes, then inspecting, comparing, hashing, formatting, serializing, iterating, converting or dropping whatever it produced, never panics, overflows, aborts or fails to terminate. The only exceptions are the documented panics of indexing with a missing key or out-of-range index.",
  ["inputs", "histories"], "every input and every sequence of public API calls",
  "Tests run fixed inputs; panics hide in rare combinations of state (decode expectations, slicing, arithmetic, unreachable arms).",
  ["src/parser.rs", "src/string.rs", "src/value.rs", "src/doc.rs", "src/number.rs", "src/anystr.rs", "src/error.rs"], [("expect/unreachable/slicing sites", "src/string.rs, src/doc.rs, src/parser.rs")],
  ["panics, signals, CPU time of calls"])

p("C20", "Parsed data borrows from the source and allocation is minimal",
  "Every string, key and number of a parsed value, document or token is a slice of the source at its own position; decode-if-needed on a borrowed string allocates only if there are escapes, escape-if-needed only if escaping is needed, and converting a Rust string never copies it. Validating, tokenizing, fixed-capacity documents, inspecting, comparing, hashing and writing allocate nothing; a document holds one heap block and a value at most one per non-empty container; dropping results, or a failed parse, releases everything.",
  ["inputs"], "every payload, accepted or rejected, and every operation on the result",
  "No test observes pointers or the allocator.",
  ["src/parser.rs", "src/string.rs", "src/doc.rs", "src/value.rs", "src/number.rs", "src/anystr.rs"], [("AnyStr::Borrowed construction in the tokenizer", "src/parser.rs"), ("decode_if_needed / escape_if_needed / From", "src/string.rs"), ("Nodes in a single Vec", "src/doc.rs")],
  ["addresses of returned slices; calls to the global allocator"])

p("C21", "Key and index lookup and in-place edits act on the right entry",
  "Looking up a key finds the first entry whose decoded key equals it, whatever escapes either was written with, and nothing if there is none or the value is not an object; looking up an index finds that element or nothing. Mutable lookups and edits reach the same entry and change only it, over any sequence of lookups, insertions, removals and replacements; lookups alone change nothing, not even how a key is spelled; the indexing operators agree with the lookups.",
  ["histories", "inputs"], "every object/array contents (duplicates, escaped keys, any size) and every history of operations",
  "A few lookups on two-entry objects are tested.",
  ["src/value.rs"], [("Object::get / get_mut / get_entry_mut, Value::get* and Index impls", "src/value.rs")],
  ["results of get, get_mut, get_entry_mut, get_index(_mut), Index(_Mut) against a model"])

p("C22", "Behaviour is the same in every build configuration",
  "The same operations on the same inputs give the same results whichever of the crate's features (none, alloc, std, heapless, and combinations) are enabled, in debug and optimized builds, and on 32-bit and big-endian targets.",
  ["configurations", "inputs"], "every feature set, build profile and target, for every input",
  "The suite runs in one feature set, one profile and one target; the others are only compiled.",
  ["src/lib.rs", "src/anystr.rs", "src/string.rs", "src/doc.rs", "Cargo.toml"], [("cfg(feature) items", "src/*.rs"), ("target_pointer_width constants", "src/string.rs")],
  ["result logs of one probe program built in each configuration"])

p("C23", "Results are independent of history and of other threads",
  "Every operation's result is a function of its arguments alone: repeating a call, calling it after any other calls (including on reused buffers, and after calls cut short by a panic in the caller's own code), calling it from within another call's delegate, destination, storage, hasher or iterator, or running any mix of calls concurrently on many threads gives the same results. Parsed values, documents, strings and numbers can be sent to and read from several threads at once without data races.",
  ["schedules", "histories"], "every history of calls and every interleaving of concurrent readers and parsers",
  "Tests run each call once, on one thread at a time and on fresh inputs.",
  ["src/parser.rs", "src/string.rs", "src/value.rs", "src/doc.rs"], [("no shared or interior-mutable state", "src/*.rs")],
  ["ThreadSanitizer reports; results compared with a fresh process"])

p("C24", "Work grows linearly with input size",
  "Parsing, validating, tokenizing, building a document, decoding, encoding, comparing, hashing, iterating, skipping and serializing each take work at most proportional to the size of their input plus output, for every kind of payload, valid or hostile, at bounded nesting depth.",
  ["inputs"], "every family of payloads as its size grows",
  "Tests use tiny inputs and observe no cost.",
  ["src/parser.rs", "src/string.rs", "src/doc.rs", "src/value.rs"], [("single-pass tokenizer", "src/parser.rs"), ("DocumentIter", "src/doc.rs")],
  ["instructions executed, measured by valgrind, as sizes double"])

p("C25", "The borrowed-or-owned string type behaves as the str it holds",
  "A borrowed-or-owned string exposes exactly the text it was made from through every view (as_str, AsRef, Borrow, Deref, clone), and its equality, ordering and hashing with its own kind and with str are those of that text, whether it is borrowed or owned. Lookups in maps and sets keyed by it work with plain str keys.",
  ["inputs"], "every text, in every combination of borrowed and owned",
  "Two comparisons and one hash lookup are tested.",
  ["src/anystr.rs"], [("PartialEq / PartialOrd / Hash / Borrow impls", "src/anystr.rs")],
  ["views, comparisons, hashes, collection lookups"])

p("C26", "String views obey the iterator contract",
  "The iterators over a string's decoded and JSON forms keep valid size hints at every step, stay finished once finished, and can be cloned at any point to give an independent iterator yielding exactly the remaining characters. Displaying such an iterator at any point writes exactly the remaining characters and does not advance it.",
  ["inputs", "histories"], "every string in every representation, at every position of the iteration",
  "Tests only collect or display fresh iterators.",
  ["src/string.rs"], [("Decoded and AsJson: Iterator, Clone, Display", "src/string.rs"), ("EscapeState", "src/string.rs")],
  ["size_hint, next, clone and Display at every position"],
  [("EscapeState", "position inside a pending escape", "src/string.rs")])

p("C27", "Only valid text is ever produced, without undefined behaviour",
  "Whatever bytes are parsed, by whatever entry point and in whatever order of calls, every str the library exposes is valid UTF-8 and every char a Unicode scalar value, and no operation performs an invalid memory access or other undefined behaviour. Malformed UTF-8 in a bytes payload is always reported as an error, never passed on.",
  ["inputs", "histories"], "every byte string and every sequence of public calls",
  "The unsafe conversions are exercised on a few valid inputs in an uninstrumented build.",
  ["src/parser.rs", "src/string.rs"], [("from_utf8_unchecked after manual verification", "src/parser.rs"), ("char::from_u32_unchecked after escape validation", "src/parser.rs, src/string.rs")],
  ["Miri, AddressSanitizer, validity monitors on every exposed str and char"])

p("C28", "Errors explain themselves truthfully",
  "Displaying an error writes exactly 'error at ', its offset, ': ' and its kind's description. A description is one line that says what the documentation of that kind says, shows an unexpected byte as the character it is (escaped if unprintable), names a missing delimiter exactly, and ends with a delegate error's own display. Two errors are equal exactly when their offsets and kinds are, and a cloned kind equals its original, for every error from every entry point.",
  ["inputs"], "every kind of error, every unexpected byte, every offset, every delegate error, from every entry point",
  "No test displays an error; kinds are compared in a few fixed cases.",
  ["src/error.rs"], [("Display for Error and ErrorKind", "src/error.rs"), ("into_fallable / into_infallable", "src/error.rs")],
  ["displayed text, equality and parts of each error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
