# writes /verif/properties.jsonl (one place to edit titles, statements, anchors)
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I = ["inputs"]; H = ["inputs", "histories"]; G = ["programs", "inputs"]
p("W01", "Messages survive the wire unchanged, byte for byte",
  "Building a message (address plus any argument list of types i I h H f d s b t c C u U T F N) and serialising it yields exactly the OSC encoding: big-endian size, NUL-padded address, comma typetags, big-endian arguments, strings and blobs zero-padded to 4 bytes. Wrapping and deserialising those bytes gives back the same address, typetags and values, and serialising again reproduces the same bytes; freeing the objects returns every heap block.",
  I, "all addresses, argument type sequences and argument values (every bit pattern), including atoms that previously held another type",
  "tests serialise a few fixed messages; encoding errors show up only for particular types, lengths modulo 4, negative small integers or reused atoms",
  ["osc_message_u.c", "osc_atom_u.c", "osc_message_s.c", "osc_atom_s.c"],
  [("message serialiser", "osc_message_u.c:osc_message_u_nserialize"), ("atom serialiser", "osc_atom_u.c:osc_atom_u_nserialize"), ("wrap", "osc_message_s.c:osc_message_s_wrap"), ("deserialise", "osc_message_s.c:osc_message_s_deserialize")], observe=["serialised bytes", "atom getters"])
p("W02", "Announced sizes are exact and bounded serialisers never overrun",
  "For every atom, message and bundle the announced serialised size equals the number of bytes the serialiser produces. The n-bounded serialisers never write outside the n bytes they are given, whatever n is, and produce the full encoding when n is at least the announced size.",
  I, "all messages and bundles within the size bounds and every buffer size from 0 to beyond the needed size",
  "a size that is off by a padding unit only corrupts memory for particular lengths and buffer sizes",
  ["osc_atom_u.c", "osc_message_u.c", "osc_bundle_u.c"], [("bounded serialisers", "osc_atom_u.c:osc_atom_u_nserialize, osc_message_u.c:osc_message_u_nserialize, osc_bundle_u.c:osc_bundle_u_nserialize"), ("sizes", "osc_message_u.c:osc_message_u_getSerializedSize")])
p("W03", "Bundles, nested bundles and timetags survive the wire",
  "Serialising a bundle gives '#bundle\\0', an 8-byte timetag (zero: unserialised bundles carry none) and each message in order with its size prefix; deserialising gives back the same messages, order and values (nested bundles included), and a second serialisation is byte-identical. Serialised and unserialised forms report the same message count and the messages at the same index.",
  I, "all bundles within bounds: number of messages, argument types and values, nesting depth, timetag bits",
  "order, count and nested-size errors need specific shapes and values",
  ["osc_bundle_u.c", "osc_bundle_s.c", "osc_atom_u.c"], [("bundle serialiser", "osc_bundle_u.c:osc_bundle_u_nserialize"), ("bundle deserialiser", "osc_bundle_s.c:osc_bundle_s_deserialize")])
p("W04", "Sanity checks accept well-formed bundles and keep traversal in bounds",
  "osc_error_bundleSanityCheck / msgSanityCheck never read outside the buffer they are given and always return. They accept every bundle the library itself produces. An accepted bundle has the '#bundle' header, message sizes that exactly tile the buffer, and in each message an address that starts with '/' and an address and typetags that end inside the message; anything shorter, truncated or with a size running past the end is rejected, so that iterating over an accepted bundle stays inside its bytes.",
  I, "every byte string of every length within the bound",
  "malformed input space is enormous and the dangerous inputs differ from valid ones in one length byte",
  ["osc_error.c"], [("bundle check", "osc_error.c:osc_error_bundleSanityCheck"), ("message check", "osc_error.c:osc_error_msgSanityCheck")])
p("W05", "Iterators and indexed accessors agree with the wire layout",
  "On a well-formed serialised bundle or message, the iterators yield every message / argument exactly once, in wire order, hasNext is false exactly after the last, and reset starts again. The address, typetags, argument count, the n-th argument, its type, size and data offsets all agree with the wire layout, and indexes out of range are refused without touching memory.",
  I, "all well-formed messages and bundles within bounds, all index values",
  "the accessors cache offsets and walk variable-size arguments; errors need particular type sequences and indexes",
  ["osc_message_s.c", "osc_message_iterator_s.c", "osc_bundle_iterator_s.c", "osc_bundle_s.c", "osc_message_iterator_u.c", "osc_bundle_iterator_u.c"],
  [("message wrap/getArg", "osc_message_s.c:osc_message_s_wrap, osc_message_s_getArg"), ("iterators", "osc_bundle_iterator_s.c, osc_message_iterator_s.c")])
p("W06", "Byte order, padding and type-size helpers obey the OSC rules",
  "The byte-order macros are involutions that reverse exactly the bytes of the value; padded length is the least multiple of 4 strictly greater than a string's length (blobs: 4 plus the least multiple of 4 not below); osc_sizeof of any type equals the encoded argument size, and encoding or decoding the byte order of an argument swaps numbers and copies every other type. They hold for all values that do not overflow.",
  I, "all 32- and 64-bit values, all lengths, all type characters", "boundary and bit-pattern errors are invisible on sampled values",
  ["osc_byteorder.h", "osc_util.c", "osc_util.h", "osc_timetag.c"], [("byte order", "osc_byteorder.h:hton32/hton64"), ("padding", "osc_util.h:osc_util_getPaddedStringLen and friends"), ("sizes", "osc_util.c:osc_sizeof")])
p("W07", "Numeric getters convert alike before and after serialisation",
  "For every numeric, boolean or nil argument, each typed getter returns the C conversion of the stored value (to the requested type), and the serialised and unserialised forms of the same argument give the same answer, as do the message-level getters; getters never read outside the argument. Any value can be copied as a blob, its size before its bytes in network order, into a new buffer or into the caller's, which gets no more than fits.",
  I, "all numeric types x all bit patterns (values representable after float-to-int conversion) x all getters",
  "14 types x 12 getters x 2^64 values; sign extension and width mistakes appear only for negative or large values",
  ["osc_atom_s.c", "osc_atom_u.c"], [("serialised getters", "osc_atom_s.c:osc_atom_s_getInt64 etc."), ("unserialised getters", "osc_atom_u.c:osc_atom_u_getInt64 etc.")])
p("W08", "In-place setters change exactly one serialised argument",
  "Setting a serialised atom in place with a value of its own type changes that argument's bytes to the new value's encoding and no other byte of the message, and the getters then return it.",
  I, "all numeric types and values, all argument positions", "one wrong width corrupts the neighbouring argument only for specific layouts",
  ["osc_atom_s.c"], [("setters", "osc_atom_s.c:osc_atom_s_setInt32 etc.")])
p("M01", "osc_match decides OSC pattern matching as specified",
  "For a valid pattern and a concrete address, osc_match returns complete/partial results, with correct match offsets, exactly as the OSC rules dictate: '?' one character, '*' any run, '[..]' and '[!..]' character sets with ranges, '{a,b}' alternatives, none crossing '/', and literals themselves; a set may start with a bracket or a hyphen and end with a hyphen standing for themselves and its ranges may run either way, alternatives are not empty, and an address component that is just '*' matches any component of the pattern. The full-match entry points agree with a straightforward recursive matcher.",
  I, "all patterns and addresses over a full alphabet within length bounds", "backtracking errors need particular interleavings of wildcards and repeated characters",
  ["osc_match.c"], [("matcher", "osc_match.c:osc_match"), ("star with backtracking", "osc_match.c:osc_match_star"), ("single char", "osc_match.c:osc_match_single_char")])
p("M02", "The matcher terminates inside its inputs on every string",
  "osc_match on any two NUL-terminated strings, however malformed the pattern, terminates, reads only inside the strings, and returns offsets within them; a pattern that has matched up to a bracket or brace that is not balanced within its component is reported as its error.",
  I, "all pairs of strings within length bounds, any bytes", "unterminated brackets, braces and stray wildcards at string ends are the interesting cases and are unlikely to be sampled",
  ["osc_match.c"], [("matcher", "osc_match.c:osc_match")])
p("B01", "Lookup finds exactly the messages whose address matches",
  "On serialised and unserialised bundles, address lookup (first match, all matches, exists, is-bound) returns exactly the messages, in order, whose address equals or is matched by the query; results refer to the original bytes, exists is true iff some message matches and bound iff a matching message has arguments.",
  I, "all bundles of up to N messages with symbolic addresses and all query addresses or patterns",
  "lookups differ only for particular address relations such as prefixes, padding-equal lengths and patterns",
  ["osc_bundle_s.c", "osc_bundle_u.c"], [("serialised lookup", "osc_bundle_s.c:osc_bundle_s_lookupAddress, addressExists, addressIsBound"), ("unserialised lookup", "osc_bundle_u.c:osc_bundle_u_lookupAddress")])
p("B02", "Appending and wrapping keep bundles well-formed and content in order",
  "Appending a message to, or wrapping messages in, a serialised bundle produces a well-formed bundle whose messages are the previous ones followed by the new one byte for byte, with the header and timetag intact, updated length and count. Empty-bundle constructors yield a 16-byte bundle that passes the sanity check.",
  H, "all starting bundles and messages within bounds and short sequences of appends", "buffer growth and stale lengths show only for particular sequences and sizes",
  ["osc_bundle_s.c"], [("append", "osc_bundle_s.c:osc_bundle_s_appendMessage"), ("wrap", "osc_bundle_s.c:osc_bundle_s_wrapMessage"), ("header", "osc_bundle_s.c:osc_bundle_s_setBundleID")])
p("B03", "Removing, renaming and replacing edit only the named messages",
  "Removing an address from a serialised bundle deletes exactly the messages with that address and keeps every other message, its order and bytes; renaming a serialised message changes its address only; replacing a message in a bundle substitutes it in place. The result is a well-formed bundle with the right length.",
  I, "all bundles of up to N messages, all target positions, sizes and addresses", "in-place memory moves go wrong for particular positions and size combinations",
  ["osc_bundle_s.c", "osc_message_s.c"], [("remove", "osc_bundle_s.c:osc_bundle_s_removeMessage"), ("rename", "osc_message_s.c:osc_message_s_renameCopy"), ("replace", "osc_bundle_s.c:osc_bundle_s_replaceMessage")])
p("B04", "Set operations on serialised bundles follow set semantics by address",
  "Union keeps all messages of the left bundle plus those of the right whose address is absent from the left; intersection keeps the left messages whose address occurs in the right; difference keeps the messages of either bundle whose address does not occur in the other (symmetric difference). Intersection and difference keep one message per address. Addresses are plain (no pattern characters). Order and message bytes are preserved, results are well-formed and inputs are unchanged.",
  I, "all pairs of bundles within bounds", "needs all relations between two address sets", ["osc_bundle_s.c"], [("set ops", "osc_bundle_s.c:osc_bundle_s_union, _intersection, _difference")])
p("B05", "Unserialised bundles: set operations, replace and counts stay consistent",
  "Union and intersection of unserialised bundles have address-set semantics (one message per address, left bundle first), addMsgWithoutDups replaces the messages with the same address, replaceMessage, removeMsg and clear edit the named messages only; after any such operation the announced message count equals the number of messages iterated and nothing is leaked or freed twice.",
  H, "all bundles within bounds and sequences of operations", "counter drift and ownership mistakes need multi-step sequences",
  ["osc_bundle_u.c"], [("set ops", "osc_bundle_u.c:osc_bundle_u_union etc."), ("list editing", "osc_bundle_u.c:osc_bundle_u_addMsg, removeMsg, replaceMessage")])
p("B06", "Editing an argument list behaves like editing a sequence",
  "Appending, prepending, inserting and removing atoms of an unserialised message acts like the same operation on a sequence: contents and order match, argument count is the sequence length, forward and backward traversal agree. An insert position below zero goes to the front and one beyond the end appends; a removal of an atom that is not there changes nothing. The typed append, prepend and insert functions put the given value, with its type, at that place; an address that does not start with a slash is refused.",
  H, "all operation sequences up to the bound with arbitrary positions", "linked-list head/tail/count errors need particular operation sequences",
  ["osc_message_u.c"], [("append/prepend/insert/remove", "osc_message_u.c:osc_message_u_appendAtom, prependAtom, insertAtom, removeAtom")])
p("B07", "Deep copies are equal, independent and leak-free",
  "A deep copy of an atom, atom array, message or bundle (either form) serialises to the same bytes as the original; changing or freeing one never affects the other, and freeing both returns every heap block exactly once. Copying over an object that already holds something releases what it held (osc_bundle_u_copy allocates its destination).",
  H, "all argument kinds including strings, blobs and nested bundles, either order of freeing", "aliasing and leaks are invisible to value-comparing tests",
  ["osc_atom_u.c", "osc_message_u.c", "osc_bundle_u.c", "osc_message_s.c", "osc_bundle_s.c", "osc_atom_s.c"], [("copies", "osc_message_u.c:osc_message_u_deepCopy, osc_bundle_u.c:osc_bundle_u_copy, osc_atom_u.c:osc_atom_u_copy, osc_bundle_s.c:osc_bundle_s_deepCopy")])
p("B08", "Explode and flatten rearrange addresses without losing messages",
  "Exploding a bundle turns messages with addresses /a/b/c into bundles nested under /a and so on, level by level up to the requested number of levels (negative: all) and with the given separator; a message at or below the address of an earlier one replaces it or joins its bundle; flattening a nested bundle turns it into messages addressed by the enclosing address, the separator and the inner address, up to the given level (0: all), with messages left without arguments dropped if so requested; a later message with the same resulting address replaces the earlier. Flatten after explode gives back the same full addresses and arguments when no address is a component-wise prefix of another. The serialised and the unserialised form do the same, and both terminate and stay in bounds for every address and separator.",
  I, "all bundles of up to N messages with addresses of up to K components", "prefix relations between addresses drive the recursion",
  ["osc_bundle_s.c", "osc_bundle_u.c"], [("explode/flatten", "osc_bundle_s.c:osc_bundle_s_explode, osc_bundle_s_flatten")])
p("B09", "Query selection partitions the bundle by address",
  "Selecting plain addresses from a bundle of messages with plain addresses gives, for each selector, exactly the messages whose address equals it as complete matches and those whose address continues it after a '/' as partial matches, unchanged and in bundle order, and the messages no selector matches as the unmatched remainder. When stripping is requested the matched part of a partial match's address is removed, unless what remains is not an address. Iterating over the result set yields the selectors' results in order of their first match.",
  I, "all bundles and selectors within bounds", "depends on all relations between selectors and addresses", ["osc_query.c", "osc_rset.c"], [("select", "osc_query.c:osc_query_select"), ("result sets", "osc_rset.c:osc_rset_select")])
p("T01", "Timetag arithmetic and ordering are 64-bit fixed-point arithmetic",
  "Timetags behave as unsigned 64-bit fixed-point numbers: add is exact (mod 2^64) and subtract gives the absolute difference, including carry and borrow between fraction and seconds, compare is the total order of that number, and the immediate timetag is recognised exactly. As a floating-point number of seconds a timetag keeps its whole seconds exactly and its fraction to the precision of a double, in both directions. The current time is the time of the system clock counted from 1900, to within a microsecond.",
  I, "all pairs of timetags", "carry/borrow needs specific fraction relations", ["osc_timetag.c"], [("add/subtract", "osc_timetag.c:osc_timetag_add, osc_timetag_subtract"), ("compare", "osc_timetag.c:osc_timetag_compare")])
p("T02", "Timetag header coding is lossless and big-endian",
  "Encoding a timetag into a bundle header and decoding it returns the same timetag with seconds then fraction in big-endian order, and the bundle accessors read and replace exactly those eight bytes.",
  I, "all timetags", "bit-level and calendar boundary errors", ["osc_timetag.c"], [("header", "osc_timetag.c:osc_timetag_encodeForHeader, decodeFromHeader"), ("ISO8601", "osc_timetag.c:osc_timetag_timetagToISO8601, ISO8601ToTimetag")])
p("T03", "Timetags in ISO 8601 form are the UTC date and time",
  "Formatting a timetag gives the UTC calendar date and time of its seconds (Gregorian leap years) with the fraction in microseconds, never writes outside the buffer, and announces a size that is enough; parsing that text gives back the same second and fraction.",
  I, "all years of the NTP era, month and day boundaries, buffer sizes", "calendar boundary errors show only on particular days of particular years", ["osc_timetag.c"], [("ISO 8601", "osc_timetag.c:osc_timetag_nformat, osc_timetag_fromISO8601")])
p("F01", "Bounded formatters never overrun and size queries are exact",
  "Every n-bounded text formatter (atoms, messages, bundles; serialised and unserialised) writes at most n bytes for any n, returns the length the full text needs, and given that much room plus the terminator produces that text NUL-terminated; the allocating variants return the same text.",
  I, "all values of every type and all buffer sizes within bounds", "overruns occur only at the particular n where a piece straddles the end", ["osc_strfmt.c", "osc_atom_u.c", "osc_atom_s.c", "osc_message_s.c", "osc_message_u.c", "osc_bundle_s.c", "osc_bundle_u.c"],
  [("formatters", "osc_strfmt.c, osc_atom_s.c:osc_atom_s_nformat, osc_message_s.c:osc_message_s_nformat, osc_bundle_s.c:osc_bundle_s_nformat")])
p("F02", "Both representations format alike",
  "The serialised and unserialised forms of the same atom, message or bundle produce the same text.", I, "all values within bounds", "two independent formatters with many type cases", ["osc_atom_u.c", "osc_atom_s.c", "osc_message_s.c", "osc_message_u.c", "osc_bundle_s.c", "osc_bundle_u.c"], [("formatters", "osc_atom_u.c:osc_atom_u_nformat, osc_atom_s.c:osc_atom_s_nformat")])
p("F03", "Quoting is correct, bounded and reversible",
  "Quoting a string escapes exactly the characters that need it so that parsing the quoted text gives the original string, and the quote/escape helpers report exactly the length they produce and never write beyond the buffer for any length.",
  I, "all strings within the length bound, all buffer sizes", "needs specific characters at specific positions relative to the end", ["osc_strfmt.c"], [("quoting", "osc_strfmt.c:osc_strfmt_addQuotesAndQuoteMeta, osc_strfmt_quotedStringWithQuotedMeta")])
p("P01", "The bundle text parser is total and memory-safe",
  "osc_parser_parseString on any text returns success with a bundle or an error, never hanging, crashing, reading outside the text, changing it or exiting the process; a returned bundle serialises to a well-formed one, and freeing it releases every block the parse allocated.",
  I, "all texts within the length bound", "grammar error paths number in the thousands", ["osc_parser.y", "osc_scanner.l"], [("parser", "osc_parser.y:osc_parser_parseString"), ("scanner", "osc_scanner.l")])
p("P02", "Parsing formatted text gives the bundle back",
  "Formatting a bundle, in either representation, and parsing the text yields the same messages in the same order with the same addresses and arguments: strings of any bytes, booleans, nil, printable characters, timetags (to the microsecond), doubles that the text can express, nested bundles and lists of these come back as they were, and integers of every type come back with the same value in the smallest of int32, int64 and uint64 that holds it. Literals (decimal, hexadecimal, floating-point, true, false, nil) parse to their exact value. Addresses are those osc_error_validateAddress accepts that do not end in a comma.",
  I, "all values within bounds", "values with sign, quoting or special characters break one direction only", ["osc_parser.y", "osc_scanner.l", "osc_atom_u.c"], [("parser", "osc_parser.y"), ("formatter", "osc_atom_u.c:osc_atom_u_nformat")])
p("P03", "The line-based text parser is total and reads what was written",
  "osc_legacy_parser_parseString, on every NUL-terminated text, stays in bounds and ends: it reports an error, leaving no bundle and no heap block behind, or gives a bundle that serialises to a well-formed one. A text of lines - an address and its arguments separated by spaces or tabs, ended by a newline - gives one message per line in order with the arguments as written: integers in the smallest of int32, int64 and uint64 that holds them, doubles, quoted strings (empty ones too) and unquoted words with a backslash standing for the character after it, characters, booleans, timetags, and bundles in brackets.",
  G, "all texts and lines within bounds", "a scanner state or buffer that only a particular mix of quotes, backslashes and brackets reaches", ["osc_legacy_parser.y", "osc_legacy_scanner.l"], [("parser", "osc_legacy_parser.y:osc_legacy_parser_parseString"), ("scanner", "osc_legacy_scanner.l")])
p("E01", "Expression arithmetic promotes and computes like C on each element",
  "For numeric operands the arithmetic operators return an element-wise result whose type is the promoted type of the operands and whose value is the C result in that type; a length-1 operand is broadcast over the other, and otherwise the shorter length decides. + joins two strings, or a string and the text of an integer, in that order; a timetag and a number of seconds added or subtracted give the time moved by that much.",
  I, "all operand types, values and lengths within bounds", "type-pair x value space; promotion errors affect single combinations", ["osc_expr.c"], [("arithmetic", "osc_expr.c:osc_expr_add etc."), ("broadcast", "osc_expr.c:osc_expr_2arg_dbl_dbl etc.")])
p("E02", "Comparison and logic operators return truth values of the real relation",
  "The relational and logical operators give, element-wise, exactly the truth value of the relation between the operands, for numbers of all types, strings and timetags.",
  I, "all operand types and values within bounds", "boundary and mixed-type comparisons", ["osc_expr.c"], [("relations", "osc_expr.c:osc_expr_lt, osc_expr_eq etc."), ("logic", "osc_expr.c:osc_expr_and etc.")])
p("E03", "Evaluating an assignment changes exactly the assigned address",
  "Evaluating '/a = expr' against a bundle leaves every other message byte-identical and in order and makes /a hold exactly the value of the expression (created if absent); a failed evaluation leaves the bundle well-formed.",
  G, "all bundles within bounds and a family of expressions covering each assignment form", "depends on whether the address exists, its position and old size", ["osc_expr.c"], [("assignment", "osc_expr.c:osc_expr_specFunc_assign"), ("evaluation", "osc_expr.c:osc_expr_evalInLexEnv")])
p("E04", "List functions have their sequence meaning and stay in bounds",
  "The list functions (nth, length, list, interleave, reverse, first, last, rest, butlast, sort, sortidx, nonzero, cumsum, aseq, nfill, sum, product, mean, median, min, max, extrema, range, sign, dot, identity, prog1, prog2, progn) return what their names mean on the sequence for every input list and index: sums, products and ranges of integers keep their exact value in the smallest of int32 and int64 that holds it, min and max are an element that no other passes, and the empty list has no least, greatest or median element. They leave their arguments unmodified and never touch memory outside the lists.",
  I, "all lists and indexes within bounds", "edge lengths and out-of-range indexes", ["osc_expr.c"], [("list functions", "osc_expr.c:osc_expr_nth etc.")])
p("E05", "The expression parser is total and memory-safe",
  "osc_expr_parser_parseExpr on any text returns an expression or an error without hanging, crashing or reading outside the text. Freeing an expression it returned releases every block the parse allocated, and an error is reported with the text as data, not as a format.",
  I, "all texts within the length bound", "grammar error paths number in the thousands", ["osc_expr_parser.y", "osc_expr_scanner.l"], [("parser", "osc_expr_parser.y:osc_expr_parser_parseExpr")])
p("E06", "Operator precedence and associativity follow the documented table",
  "An infix expression evaluates to the value of its fully parenthesised form under the documented table: indexing and unary operators bind tightest, then ^, then * / %, then + -, then < <= > >=, then == !=, then & &&, then | ||, then the conditional, then assignment; binary operators associate to the left, the conditional and assignment to the right; for all operator combinations and operand values.",
  G, "all pairs of binary operators and all small operand values", "operator pairs x values", ["osc_expr_parser.y"], [("precedence", "osc_expr_parser.y:%left/%right table")])
p("E07", "Every function of the expression language is total and memory-safe",
  "Calling any function of the expression language on arguments of any number and kind (empty, numbers, strings, blobs, bundles, timetags, booleans, nil) returns a value or an error without crashing or touching memory outside the values. Every element of a value has a type; the arguments and the bundle stay as they were, except for what assigning and deleting functions name; and after a successful evaluation nothing is left allocated but the value.",
  I, "every function on every argument list within the bounds", "196 functions x argument kinds; the tests call each on one or two well-typed lists", ["osc_expr.c", "osc_expr_rec.c"], [("table", "osc_expr_rec.c:osc_expr_funcsym"), ("call", "osc_expr.c:osc_expr_call")])
p("E08", "Control forms and functions of the bundle do what they name", "if, && and || evaluate exactly the operand their test selects. apply, map, lreduce and rreduce on an operator's name, a lambda or a name held by a message give the value of that function on the arguments, elementwise, folded from the left or from the right; the parameters of a lambda are visible inside it only. getaddresses, getmsgcount, gettimetag, value, bound, exists and emptybundle report what the bundle holds; settimetag, delete, assignment to a member of a bundle inside the bundle and bundle literals change exactly what they name. eval evaluates a text and reports whether it could; quote and tokenize evaluate nothing.", G, "every form on every bundle, operand and operator within the bounds", "which branch runs depends on values; members and scopes nest", ["osc_expr.c", "osc_expr_parser.y"], [("if", "osc_expr.c:osc_expr_specFunc_if"), ("map and reduce", "osc_expr.c:osc_expr_specFunc_map, osc_expr_specFunc_reduce"), ("members", "osc_expr.c:osc_expr_specFunc_getBundleMember, osc_expr_specFunc_assignToBundleMember")])
p("E09", "String functions have their string meaning", "strlen is the length; strcmp has the sign of the order of the strings, or of their first n bytes; strchar gives the characters at the positions, and an error for any position outside; strfind gives the positions of every occurrence that does not overlap the one before it; split cuts at every character of the separator and drops empty parts; join puts the separator between the parts; typetags gives the type characters of the elements; match puts every address, in order, into the group of those that match the pattern, those that match the beginning of it up to a slash, or the others; for every string and position.", G, "every string and position within bounds", "positions and overlaps at the ends of strings", ["osc_expr.c"], [("strfind", "osc_expr.c:osc_expr_strfind"), ("split, join", "osc_expr.c:osc_expr_split, osc_expr_join")])
p("E10", "Numeric functions compute the function they name", "Each function of the mathematical library is that function of every element, in double, with one element against a list broadcast; the constants have their value; mtof, ftom, l2norm and dot follow their formula. The remainder of a division is never negative and smaller than the divisor (and the dividend for a divisor of 0); clip gives the nearest value of the range and scale the line through both pairs of points, integers staying integers at their full width; cross and det are the product of vectors of three and the determinant of a square matrix; quickhull gives every vertex of the convex hull of the points and no point inside it; bitand and bitor work in the promoted type; hton and ntoh swap bytes; a cast gives the C conversion of every representable value.", G, "every operand value of every numeric type (or, where noted, a table of boundary values)", "types x values; integers beyond 32 bits and singular matrices", ["osc_expr.c"], [("generated functions", "osc_expr.c:osc_expr_1arg_dbl, osc_expr_2arg_dbl_dbl"), ("mod", "osc_expr.c:osc_expr_mod"), ("det", "osc_expr.c:osc_expr_det"), ("quickhull", "osc_expr.c:osc_expr_quickhull"), ("cast", "osc_expr.c:osc_expr_cast")])
p("E11", "The functions of the expression language are found and documented by name", "Looking up any string gives the function of exactly that name or, for every other string, nothing. The documentation of every function gives its name, signature and description, the number of its required and optional arguments, the name and the types of each of them in order, and its categories; a call with fewer or more arguments than that is refused. Every category is listed; asking for one (or the beginning of one, with or without the prefix /doc/category) gives exactly the functions that are in it, and any other text of any length is answered safely.", I, "every string, function, category and combination of types within the bounds", "196 functions and any string; buffers overflowed only by unusual categories or types", ["osc_expr.c", "osc_expr_rec.c"], [("lookup", "osc_expr.c:osc_expr_lookupFunction"), ("documentation", "osc_expr.c:osc_expr_formatFunctionDoc, osc_expr_formatTypes"), ("categories", "osc_expr.c:osc_expr_getCategories, osc_expr_getFunctionsForCategory")])
p("E12", "Expressions and environments are values", "An expression built from its parts by setting, appending and prepending arguments, or parsed from a text, has those arguments in that order and counts them; the text it is shown as names every function, parameter, number, string and address in order with matching parentheses, whatever its length. A copy is equal and independent: it stays what it was when the original is freed. A lexical environment maps each name to the value last bound to it, a copy of it is independent, and an expression evaluated in it sees exactly its bindings (and the parameters of its lambdas before them) and leaves it as it was.", G, "every expression and environment within the bounds", "shapes of expressions; which copy frees what", ["osc_expr.c", "osc_expr_rec.c"], [("arguments", "osc_expr.c:osc_expr_setArg, osc_expr_appendArg, osc_expr_prependArg"), ("copies", "osc_expr.c:osc_expr_copy, osc_expr_arg_copy; osc_expr_rec.c:osc_expr_rec_copy"), ("text", "osc_expr.c:osc_expr_format"), ("environments", "osc_expr.c:osc_expr_bindVarInLexenv, osc_expr_copyLexenv, osc_expr_evalInLexEnv")])
p("D01", "The linked list behaves like a sequence", "Every sequence of linked-list operations yields the contents, order and count of the same operations on a sequence, and freeing the list releases every node once.", H, "all operation sequences up to the bound", "head/tail corner cases need specific sequences", ["osc_linkedlist.c"], [("list", "osc_linkedlist.c")])
p("D02", "The hash table behaves like a map", "After any sequence of store, storeSafe, lookup, remove and clear, lookup returns the value most recently stored for that exact key and NULL otherwise; keys and iteration report each stored key exactly once; destructors run exactly once per replaced, removed or destroyed entry.", H, "all operation sequences up to the bound over arbitrary (possibly colliding) keys", "collision chains and growth need specific keys", ["osc_hashtab.c"], [("map", "osc_hashtab.c:osc_hashtab_store, lookup, remove")])
p("D03", "Arrays keep elements in place and in bounds", "Generic arrays and arrays of atoms, messages and bundles report their length, return the element at each valid index and NULL for any other index, and copying (also into an existing array at an offset), resizing or clearing preserves the elements that remain. The value getters of an atom array return the values of its elements, and its strings joined with the separator; overwritten and freed atoms release what they own.", H, "all lengths and indexes (including negative) within bounds", "index boundary errors", ["osc_array.c", "osc_atom_array_u.c", "osc_atom_array_s.c"], [("array", "osc_array.c:osc_array_get, copyInto, resize"), ("atom arrays", "osc_atom_array_u.c")])
p("D04", "Typetag classification and promotion are total and consistent", "Comparison of two type characters orders the numeric types by width (N T F c C u U i I h H f d s), is antisymmetric for known types and equal only for the same type; the largest type of a set of atoms is the widest one; every one of the 256 characters has a name, and the known types their own.", I, "all type characters and pairs", "65536 pairs and out-of-table characters", ["osc_typetag.c"], [("compare", "osc_typetag.c:osc_typetag_compare"), ("predicates", "osc_typetag.c:osc_typetag_isNumeric etc.")])
p("R01", "Dispatch delivers each message to exactly the matching handlers", "Dispatching a bundle through a virtual table calls the method last bound to every entry once, with the context of the entry, the whole bundle, the messages whose address is the entry's selector and the messages whose address begins with the selector followed by a further component (with that prefix removed when asked, unless what is left is no address), each in bundle order; the messages no entry matched, and an empty bundle, go to the delegation method. This holds after any sequence of registrations, rebinds and renames to a free selector, where a selector names at most one entry and an entry keeps its position.", H, "registration histories, selectors and message addresses (with wildcards) within bounds", "depends on the registration history and growth", ["osc_vtable.c", "osc_dispatch.c"], [("table", "osc_vtable.c:osc_vtable_addEntry, osc_vtable_renameEntry"), ("dispatch", "osc_dispatch.c:osc_dispatch, osc_dispatch_selectors")])
p("S01", "The incremental stream checker accepts exactly well-formed OSC",
  "Feeding a well-formed bundle or message to osc_serial_processByte byte by byte never reports an error, whatever its addresses (patterns included), sizes, types and values. A wrong byte of the '#bundle' identifier, a packet that starts with neither '#' nor '/', a message without a leading slash, missing or unknown typetags, a negative size, malformed brackets and a wrong byte in the padding of an address or its typetags are reported at the byte where they occur; every error code has a text, and no state or byte makes the checker read outside its tables.",
  H, "all byte streams and packets within bounds", "a state machine whose states are reached only by specific byte sequences and sizes", ["osc_serial.c"], [("byte machine", "osc_serial.c:osc_serial_processByte")])
p("X01", "Address validation accepts exactly the legal OSC addresses", "osc_error_validateAddress accepts an address iff it is not NULL, starts with '/', is not just '/', and contains neither '#' nor a space. Every error code has a text (unknown codes included), and an error handler receives that text together with the message of the error.", I, "all strings within bounds", "single-character differences", ["osc_error.c"], [("validation", "osc_error.c:osc_error_validateAddress")])
p("X02", "Functions given no object do nothing", "Freeing, clearing, reading and querying atoms, messages, bundles, arrays, lists, hash tables, result sets and expressions through a null pointer (the calls listed in harness/nullt.h) leaves everything as it was and answers 0, NULL or an error, whatever the other arguments are.", I, "every listed call with every value of its integer arguments", "callers pass on the NULL of a failed lookup; the tests never do", ["osc_atom_u.c", "osc_atom_s.c", "osc_message_u.c", "osc_message_s.c", "osc_bundle_u.c", "osc_bundle_s.c", "osc_rset.c", "osc_expr.c"], [("guards", "osc_atom_u.c:osc_atom_u_getTypetag and the other accessors")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
