#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the properties are authored here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": state} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

R = ["src/yason/mod.rs", "src/yason/object.rs", "src/yason/array.rs"]
B = ["src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/builder/mod.rs", "src/vec.rs"]

prop("C01", "Typed accessors succeed exactly on the stored type",
 "A typed accessor of a document, an object member or an array element (object, array, string, number, bool) yields a value only if the type code stored for the addressed value is the one it is named after; for any other valid type code it returns the unexpected-type error naming the requested and the stored type. "
 "The type queries (data_type, type_of, is_type, is_null) report exactly the stored type code of the addressed value, and converting a document into a value yields the variant of its type code.",
 ["inputs"], "every document, key, index and requested type", "tests read back a few well-typed values; they do not enumerate accessor x stored type for documents, members and elements",
 R, [("check_type / is_type / read_type", "src/yason/mod.rs"), ("check_key", "src/yason/object.rs"), ("value entry type reads", "src/yason/array.rs")])
prop("C02", "Reading never panics or reads out of bounds on any bytes",
 "Every fallible read operation on documents, objects, arrays and their iterators, applied to arbitrary bytes, returns a value or an error: no panic, no arithmetic overflow and no access outside the given bytes (debug assertions aside).",
 ["inputs"], "all byte strings used as documents, all keys and all indexes", "tests only read documents produced by the builders, so truncated or inconsistent lengths, offsets and counts are never met",
 R + ["src/util.rs"], [("checked get/slice", "src/yason/mod.rs"), ("decode_varint", "src/util.rs")])
prop("C03", "Builders emit exactly the published binary layout",
 "For every sequence of successful calls, the bytes a scalar, array or object builder appends are those of the published format: type code, little-endian total size and element count, one 4-byte key offset per object member or one 5-byte value entry per array element, and out-of-line values. "
 "Each key offset and out-of-line array entry holds the distance from the byte following the size field to the key or value it stands for, booleans and nulls of arrays are inlined, and the total size counts every byte after the size field.",
 ["inputs", "histories"], "all element counts, values and call sequences", "tests decode with the same constants they encoded with, for a few small documents; a layout drift on both sides or at a larger count is invisible",
 B, [("try_new/push_*/finish", "src/builder/array.rs, src/builder/object.rs"), ("VecExt writers", "src/vec.rs")])
prop("C04", "Readers locate every field where the published layout puts it",
 "For every document, the element count, member keys, member values and array elements are taken from the positions the published format defines: count after type and size, i-th key offset or value entry in the table that follows, and keys, types and values at the stored distance from the byte following the size field. "
 "Strings, numbers and nested objects or arrays returned by a reader are exactly the bytes their stored length delimits.",
 ["inputs"], "all documents, indexes and keys", "tests use few elements and small sizes, so a wrong stride, base or width that agrees on the sampled positions goes unnoticed",
 R, [("read_* helpers", "src/yason/mod.rs"), ("read_key, skip_key, nth_key_offset", "src/yason/object.rs"), ("read_value_pos", "src/yason/array.rs")])
prop("C05", "A container can only be finished with its declared number of elements",
 "Finishing an array or object builder succeeds only if exactly the declared number of elements was successfully pushed; pushing beyond the declared number is refused. Otherwise the call fails with the inconsistent-count error that names the declared count.",
 ["histories"], "all declared counts 0..65535 and all push sequences", "tests try one under-full container each; they do not cover all push kinds, zero counts or over-full containers",
 B, [("value_count / element_count comparison", "src/builder/array.rs, src/builder/object.rs")])
prop("C06", "Nesting is limited to 100 levels and inner builders gate their parents",
 "No builder call creates an object or array nested more than 100 levels deep, and every nesting of at most 100 levels is accepted. While an inner builder is unfinished, pushing to or finishing any enclosing builder fails with the inner-uncompleted error; finishing the inner builder successfully re-enables the parent.",
 ["histories"], "all interleavings of push, finish and drop over nested builders of both kinds", "tests exercise one unfinished inner builder and one over-deep nest of one kind",
 B, [("Depth counter", "src/builder/mod.rs"), ("current_depth comparison", "src/builder/array.rs, src/builder/object.rs")])
prop("C07", "A refused push leaves the builder as it was",
 "If a push call on an array or object builder returns an error, the elements already pushed, their order and their encoding are unaffected: the builder's bytes and bookkeeping are those before the call, and it can be continued and finished as if the call had not been made.",
 ["histories", "fault_sequences"], "every push method, every error it can return, every builder state", "tests stop at the first error; none continues to use a builder after a refused push",
 B, [("push_value / push_key_value_by", "src/builder/array.rs, src/builder/object.rs")])
prop("C08", "Counts, sizes, offsets and lengths are never silently truncated",
 "Whenever a count, key length, string length, offset or total size does not fit its field in the format (65535 for counts and keys, 2^28-1 for strings, 2^31-1 for sizes), encoding, JSON import or materialising a query result fails with an error; no encoder stores a truncated value.",
 ["inputs"], "all key, string, array, object and document sizes", "tests use small values only; limits beyond 64K elements, 64KB keys and 2GB documents are out of their reach",
 B + ["src/json.rs", "src/path/mod.rs"], [("checked conversions", "src/builder/mod.rs, src/json.rs, src/path/mod.rs"), ("MAX_STRING_SIZE, MAX_KEY_SIZE", "src/binary.rs")])
prop("C09", "Encoded documents contain only bytes the encoder wrote",
 "Every byte of a finished document was explicitly written from the declared counts and pushed values; no uninitialised or leftover memory becomes part of a document, so equal call sequences give identical bytes.",
 ["histories"], "all call sequences and previous buffer contents", "tests compare decoded values, and leaked bytes lie in fields that readers ignore",
 B, [("zero-filled reserved space", "src/vec.rs")])
prop("C10", "Encoding into a caller's buffer only appends to it",
 "Encoding scalars, arrays or objects, or parsing JSON, into a caller-supplied buffer leaves the bytes already in the buffer unchanged and in place, and the returned document is exactly the newly appended bytes.",
 ["inputs", "histories"], "all previous buffer contents and all encodable values", "tests nearly always pass an empty buffer",
 B + ["src/json.rs"], [("bytes_init_len", "src/builder/array.rs, src/builder/object.rs"), ("init_len", "src/builder/scalar.rs")])
prop("C11", "Encoders reserve memory fallibly before they grow a buffer",
 "Whenever an encoder grows a buffer in proportion to its input, the space was obtained by a fallible reservation in the same call, whose failure is reported as an error; no encoder relies on infallible growth.",
 ["inputs", "fault_sequences"], "all inputs and every point at which an allocation can fail", "allocation failures are not injected by any test, and release builds do not check capacity",
 B, [("try_reserve before push", "src/builder/*.rs"), ("capacity debug assertions", "src/vec.rs")])
prop("C12", "Object keys are ordered by length then bytes, and lookup uses that order",
 "Keys compare by byte length first and then lexicographically everywhere: inserting into an unsorted object keeps the key-offset table in that order, and a lookup narrows the table by the same order, so it reports a key as present exactly when the table contains it.",
 ["inputs", "histories"], "all key sets, insertion orders and lookup keys", "tests insert a handful of keys; order mistakes between specific lengths or byte values need specific key pairs",
 ["src/util.rs", "src/builder/object.rs", "src/yason/object.rs"], [("cmp_key", "src/util.rs"), ("binary_search", "src/builder/object.rs"), ("find_key", "src/yason/object.rs")])
prop("C13", "Equality compares values structurally",
 "Two documents are equal exactly if they have the same type and equal content: strings by bytes, numbers numerically, booleans by value, arrays by length and element-wise in order, objects by member count and member-wise by key and value. Encoded sizes, offsets and paddings do not influence the result.",
 ["inputs"], "all pairs of documents", "tests compare a few pairs of documents; differences confined to one member, element or encoding are not enumerated",
 R, [("equals", "src/yason/mod.rs, src/yason/array.rs, src/yason/object.rs")])
prop("C14", "Formatted text is well-formed JSON with every element once and in order",
 "For every document, compact and pretty formatting write one syntactically well-formed JSON text: matching brackets and quotes, commas exactly between elements, a colon between key and value, and only whitespace added by pretty mode. Every member and element is written once, in stored order, and by the notation of its type.",
 ["inputs"], "all documents, both modes, documents and query results", "tests format a few documents; separators and nesting for other shapes (empty, nested first, last) are sampled only",
 ["src/format/mod.rs", "src/format/pretty.rs", "src/path/mod.rs"], [("Formatter", "src/format/mod.rs"), ("PrettyFormatter", "src/format/pretty.rs")])
prop("C15", "Strings and keys are escaped so that they read back unchanged",
 "In formatted text every string and member key is written between quotes with exactly the quote, backslash and the control characters U+0000 to U+001F (and optionally the slash) replaced by their JSON escapes, and all other bytes copied unchanged and in order.",
 ["inputs"], "all strings", "tests format strings with a few of the escapes; 256 byte values in any position are not enumerated",
 ["src/format/mod.rs"], [("ESCAPE table, format_escaped_str", "src/format/mod.rs")])
prop("C16", "JSON import maps every JSON value to the same-kind value at its place",
 "Importing JSON, from text or from a parsed value, into a new document or a caller's buffer, at top level, in arrays and in objects, encodes null, booleans, numbers, strings, arrays and objects as the value of the same kind and content, each element at its position and each member under its own key. Containers declare exactly as many elements as the JSON value has, and nested objects are built unsorted so that any member order is accepted.",
 ["inputs"], "all JSON values", "tests import a few documents; each combination of kind, nesting context and entry point is not enumerated",
 ["src/json.rs"], [("try_from, parse_to, write_array, write_object", "src/json.rs")])
prop("C17", "Parsing a path expression never panics and always terminates",
 "Parsing any string as a path expression returns an expression or an error: it does not panic (debug assertions aside), does not read outside the string, makes progress in every iteration and uses bounded stack space.",
 ["inputs"], "all strings", "tests parse a few dozen paths; malformed, truncated and very long inputs are not enumerated",
 ["src/path/parse.rs"], [("PathParser", "src/path/parse.rs")])
prop("C18", "Parsed path steps are exactly those written",
 "An accepted path expression starts with the root symbol and the root occurs nowhere else, an item method can only be its last step, array subscripts denote the written decimal number and are at most 2^31-1, an unquoted key is the maximal run of ASCII letters and digits written and starts with a letter, and a quoted key is the text between its quotes.",
 ["inputs"], "all strings accepted as path expressions", "tests check a few dozen paths without unusual spacing, long indexes or misplaced methods",
 ["src/path/parse.rs"], [("parse_* methods, push_step", "src/path/parse.rs")])
prop("C19", "Array steps select the elements they denote",
 "For an array of n elements, [i] selects element i if i < n, [last-m] element n-1-m if m < n, and [a to b] every element between the two denoted positions inclusive in array order, whichever bound is larger, clipped to the array; a list selects what its parts select, in order. A value that is not an array is treated as an array containing only that value, and at most once by a list.",
 ["inputs"], "all subscripts, ranges, lists, array lengths and element kinds", "tests use one or two arrays; boundary combinations of subscript, range and length (empty and one-element arrays, bounds beyond the end) are not covered",
 ["src/path/query.rs"], [("array_*_match, find_range, non_array_relaxed_match", "src/path/query.rs")])
prop("C20", "exists agrees with query",
 "For every document and every path without item method on which both succeed, exists returns true exactly if query selects at least one value; exists never fails because several values match, and rejects paths that end in an item method.",
 ["inputs"], "all documents and all paths without item method", "tests call exists on a few documents and paths",
 ["src/path/query.rs", "src/path/mod.rs"], [("for_exists early return", "src/path/query.rs")])
prop("C21", "Query results follow the wrapper and buffer contract",
 "Without wrapper, a query returns nothing for no match, the value for one match, and fails with the multiple-values error for several matches or an item method. With wrapper, it returns nothing for no match and otherwise all matches in document order, in the caller's query buffer if given, or encoded as an array into the caller's result buffer if given; whatever such a buffer held before is not part of the results.",
 ["inputs", "histories"], "all match counts, both wrapper settings and all combinations and previous contents of the buffers", "tests mostly use fresh buffers and few combinations",
 ["src/path/mod.rs", "src/path/query.rs"], [("PathExpression::query, values_to_yason", "src/path/mod.rs")])
prop("C22", "Length prefixes decode to the length that was encoded",
 "For every length from 0 to 2^28-1, the variable-length prefix written by the encoders uses 7 payload bits per byte, least significant group first, with the high bit set on all but the last byte, in the minimal number of bytes and at most 4; reading it back yields the same length and consumes exactly those bytes.",
 ["inputs"], "all 2^28 lengths", "tests check four lengths",
 ["src/util.rs"], [("encode_varint, decode_varint", "src/util.rs")])
prop("C23", "Serialization preserves the document's bytes or text",
 "With a binary serializer a document is serialized as exactly its bytes and deserialized from exactly the bytes received; with a human-readable one as its compact text and deserialized by parsing that text. Both directions choose by the human-readable flag of the format, and failures are reported as errors of the format.",
 ["inputs", "configurations"], "all documents and all serde formats", "one test uses one binary format and one document; the human-readable direction is not tested",
 ["src/serde.rs"], [("Serialize, Deserialize", "src/serde.rs")])
prop("C24", "Errors are never swallowed",
 "If any step of reading, querying, formatting, building, importing or serializing fails, the public operation fails with an error of the same cause; no operation continues with or returns a partial or default result after a failed step. The only exception is that a number too small to represent is imported as zero.",
 ["inputs", "fault_sequences"], "every operation and every failing step inside it", "tests trigger few of the error paths; a result that is dropped or defaulted looks like success",
 R + B + ["src/json.rs", "src/path/mod.rs", "src/path/query.rs", "src/format/mod.rs", "src/format/pretty.rs", "src/serde.rs", "src/util.rs"], [("? propagation", "all modules"), ("From conversions", "src/yason/mod.rs, src/format/mod.rs, src/builder/mod.rs")])
prop("C25", "Misuse of builders and borrowed documents does not compile",
 "Safe code cannot use a parent builder while its inner builder is alive, use a builder after finishing it, modify or drop a buffer while a document, object, array, value or iterator borrowed from it is alive, obtain mutable access to a document's bytes, construct a document, object or array from bytes without unsafe, or use the typed views' internals.",
 ["programs"], "all safe client programs", "tests only contain programs that compile",
 R + B + ["src/path/mod.rs"], [("lifetimes and visibility of the public API", "src/builder/*.rs, src/yason/*.rs, src/path/mod.rs")])
prop("C26", "Type codes, conversions and names agree with the published table",
 "Object, array, string, number, bool and null have the published type codes 1 to 6; converting a type to its code and back is the identity, every other code is rejected with that code, and each type's name and display text is its own.",
 ["inputs"], "all 256 codes and all types", "tests do not enumerate the codes; a swapped name or a missing code affects one entry only",
 ["src/data_type.rs"], [("DataType, TryFrom<u8>, name, Display", "src/data_type.rs")])
prop("C27", "Iterators yield each element exactly once, in stored order",
 "Iterating over an object's entries, keys or values or over an array's elements yields, for i from 0 to the element count minus one, the i-th entry, key, value or element, and then ends; entries pair each key with its own value.",
 ["inputs"], "all documents and all iterator kinds", "tests iterate over a few small containers",
 ["src/yason/object.rs", "src/yason/array.rs"], [("iterators", "src/yason/object.rs, src/yason/array.rs")])
prop("C28", "Builder operations never panic",
 "Whatever values and in whatever order they are called, the construction, push and finish operations of scalar, array and object builders return a result: no panic (debug assertions aside), no arithmetic overflow and no write outside the bytes they own.",
 ["histories", "inputs"], "all call sequences on builders of both kinds, nested arbitrarily", "tests call builders in intended order with small counts",
 B, [("checks before each push and finish", "src/builder/array.rs, src/builder/object.rs")])
prop("C29", "Numbers import by one rule: overflow fails, underflow is zero",
 "Every JSON number is imported from its exact decimal text: if it is too large the import fails with the numeric overflow error, if it is too small to represent it becomes zero, and otherwise it is the number parsed from that text; imports of one document do not influence each other's numbers.",
 ["inputs"], "all JSON numbers at all places", "tests convert a sample of numbers one at a time",
 ["src/json.rs"], [("number2decimal", "src/json.rs")])
prop("C30", "Only unsafe code and encoders create documents from bytes",
 "No safe public function turns caller-supplied bytes into a document, object or array without encoding or validating them, so safe code cannot make readers treat arbitrary bytes as valid text.",
 ["programs", "inputs"], "all safe public functions", "a hole in the API needs a program that exploits it; tests do not attack the API",
 R + B + ["src/serde.rs", "src/path/mod.rs"], [("new_unchecked call sites", "src/**/*.rs")])
prop("C31", "Key, wildcard and descendant steps visit exactly the values they denote",
 "A key step on an object continues with that member's value if present, and a wildcard step with every member's value in order; on an array both apply to each element in order, at every level of arrays. A wildcard array step continues with every element, and a descendant step with the member of that name of the value itself and then of everything below it in document order; on other values these steps select nothing, except that the array wildcard selects the value itself.",
 ["inputs"], "all documents and all sequences of such steps", "tests query two or three documents",
 ["src/path/query.rs"], [("object_key_match, object_wildcard_match, array_wildcard_match, descendent_step_match", "src/path/query.rs")])
prop("C32", "Item methods report the type, size and count of the selected values",
 "A path ending in type() yields, for each selected value, the lower-case name of its type; one ending in size() yields the number of elements of a selected array and 1 for any other value; one ending in count() yields the number of selected values as its single result.",
 ["inputs"], "all documents and all paths ending in an item method", "tests query a few documents with methods",
 ["src/path/query.rs", "src/path/mod.rs"], [("func_step_match", "src/path/query.rs"), ("has_method_count", "src/path/mod.rs")])
prop("C33", "Views and copies of a document hold exactly its bytes",
 "Every conversion between forms of one document (borrowing an owned document, copying a borrowed one, assigning into an existing one, wrapping or taking its bytes) yields exactly the bytes it was given, no more, fewer or other, and leaves nothing of a previous document; it fails only if memory cannot be reserved. Cloning a value, array or object yields one with the same variant and contents.",
 ["inputs"], "all documents, and all previous contents of an assigned document", "tests copy a few small documents",
 ["src/yason/mod.rs", "src/yason/array.rs", "src/yason/object.rs"], [("Yason::to_yason_buf, ToOwned, YasonBuf::clone_from_yason, Deref, Borrow, AsRef, as_bytes, new_unchecked", "src/yason/mod.rs"), ("Object::yason, AsRef<Object>", "src/yason/object.rs"), ("Array::yason, AsRef<Array>", "src/yason/array.rs")])
prop("C34", "A rejected path is at fault as and where its error says",
 "When parsing a path expression fails, the reported position is within the text (at most its length) and the error is true of it: a missing $ is reported only if the first byte that is not a blank is another or there is none; an empty subscript only at a ] with nothing before it in its brackets; a bad subscript or a missing closing bracket only where no digit or no ] is, respectively, after any white space; a subscript is too long only if it exceeds 2^31-1; an escape sequence is invalid only if \\ is followed by none of bfnrt\"/\\; a quoted key is unclosed only if the text ends in it; a key is invalid only if no letter or quote is there or its bytes are not UTF-8; a method is invalid only if its parentheses do not close or it is none of count, size and type; trailing characters are reported only where some are, other than white space.",
 ["inputs"], "all byte strings given to the parser", "tests check the error of about fifty texts",
 ["src/path/parse.rs"], [("PathParser::parse and the functions it calls, PathParseError::new", "src/path/parse.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
