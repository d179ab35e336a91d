CHECKS = {}
NA = {}
def C(pid, **kw): CHECKS[pid] = kw
def J(h, entry, reach="done", bound="", **kw):
    d = {"h": h, "entry": entry, "reach": reach.split(), "bound": bound}; d.update(kw); return d
def Q(**kw): return {"defs": kw}

C("W01", bounds="messages of up to 2 (quick) or 3 (thorough) arguments of 16 types, any value bits, addresses of 1-5 characters, strings and blobs of 0-5 bytes; larger messages of chosen shapes with any values: 4 to 65 arguments round the 16 types, addresses of 7 to 300 characters, strings and blobs of 7 to 257 bytes; addresses, strings and blobs of 65531 to 70001 bytes; 253 to 515 arguments",
  jobs=[J("wire.c", "h_roundtrip", quick=Q(NARGS=2), thorough=Q(NARGS=3)), J("wire2.c", "h_reuse")] + [J("big.c", "h_message"), J("big.c", "h_huge", opts=["--steps", "60000000"]), J("big.c", "h_manyargs", opts=["--steps", "60000000"])])
C("W02", bounds="atoms of 16 types; messages of up to 2 arguments; bundles of up to 2 messages with nesting; every buffer size from 0 to size+1; the larger messages of W01",
  jobs=[J("wire2.c", "h_bounded_atom", "fits short"), J("wire2.c", "h_bounded_msg", "fits short", quick=Q(NARGS=1), thorough=Q(NARGS=2)), J("wire2.c", "h_bounded_bndl", "fits short", quick=Q(NMSG=1), thorough=Q(NMSG=2))] + [J("big.c", "h_message"), J("big.c", "h_huge", opts=["--steps", "60000000"]), J("big.c", "h_manyargs", opts=["--steps", "60000000"])])
C("W03", bounds="bundles of up to 2 messages of up to 2 arguments, one of which may be a nested bundle; one harness with three levels; bundles of 4 to 40 messages, bundles nested 1 to 16 deep",
  jobs=[J("wire2.c", "h_bndl_roundtrip", quick=Q(NMSG=2, NARGS=1), thorough=Q(NMSG=2, NARGS=2)), J("wire2.c", "h_nest3")] + [J("big.c", "h_bundle"), J("bigtext.c", "h_deep")])
C("W05", bounds="messages of up to 2 (3) arguments, bundles of up to 3 messages, every int index; messages of up to 65 arguments and bundles of up to 40 messages",
  jobs=[J("wire2.c", "h_access", "negative beyond", quick=Q(NARGS=2), thorough=Q(NARGS=3)), J("wire2.c", "h_access", "negative beyond", quick=Q(NARGS=4, TYPES='"sTh"', STRMAX=4), thorough=Q(NARGS=4, TYPES='"sTbi"', STRMAX=4)), J("wire2.c", "h_access_u", quick=Q(NARGS=2), thorough=Q(NARGS=3)), J("wire2.c", "h_bndl_iter"), J("wire2.c", "h_bndl_iter_u"), J("wire2.c", "h_rewrap", "bare typed")] + [J("big.c", "h_message"), J("big.c", "h_huge", opts=["--steps", "60000000"]), J("big.c", "h_manyargs", opts=["--steps", "60000000"]), J("big.c", "h_bundle")])
C("W06", bounds="all 16/32/64-bit values; all lengths below 2^31; strings of 0-9 bytes; all 256 type characters; encoding and decoding of values of 17 types",
  jobs=[J("conv.c", "h_byteorder"), J("conv.c", "h_padding"), J("conv.c", "h_sizeof", "known unknown"), J("conv.c", "h_encode")])
C("W07", bounds="every numeric, boolean and nil type, all value bits (float values inside the range of an integer target); digit strings of up to 3 characters; strings and blobs of 0-5 bytes with every buffer size; blob copies of 17 types into buffers of 0-14 bytes",
  jobs=[J("conv.c", "h_getters", "Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Int Float Double Bool"), J("conv.c", "h_getters_str"), J("conv.c", "h_getstring", "fits short"), J("conv.c", "h_getblob"), J("conv.c", "h_getters_blob", "blob time"), J("conv.c", "h_blobcopy", "given made")])
C("W08", bounds="three-argument messages, every position, every numeric type, timetags and same-length strings, all value bits",
  jobs=[J("conv.c", "h_inplace"), J("conv.c", "h_setalloc"), J("conv.c", "h_negate")])
C("W04", bounds="every byte string of up to 34 (44) bytes, with and without the bundle header; every truncation of bundles of up to 2 messages of up to 1 argument",
  jobs=[J("sanity.c", "h_sanity_any", "accepted rejected", thorough=Q(LMAX=44)), J("sanity.c", "h_sanity_own", quick=Q(NMSG=1), thorough=Q(NMSG=2)), J("sanity.c", "h_sanity_msg")])
C("X01", bounds="every string of up to 8 (12) bytes; every 64-bit error code",
  jobs=[J("sanity.c", "h_address", thorough=Q(AMAX=12)), J("sanity.c", "h_errstr"), J("sanity.c", "h_errhandler")])
C("X02", bounds="every call of the table in harness/nullt.h with every value of its integer arguments", jobs=[J("nulls.c", "h_null")])
C("M01", bounds="patterns of up to 3 (4) tokens of 12 kinds with arbitrary characters against every address of up to 4 (5) characters; ten multi-star shapes against addresses of up to 6 (7) characters; 33 shapes of sets and alternatives with arbitrary characters against every address of up to 4 (6) characters",
  jobs=[J("match.c", "h_match", "both pattern address none", quick=Q(NTOK=3, AMAX=4), thorough=Q(NTOK=4, AMAX=5)), J("match.c", "h_match_stars", "both pattern address none", quick=Q(AMAX=4), thorough=Q(AMAX=6)), J("match.c", "h_match_sets", "both pattern address none", quick=Q(AMAX=4), thorough=Q(AMAX=6)), J("match.c", "h_match_addrstar", quick=Q(NTOK=2), thorough=Q(NTOK=3))])
C("M02", bounds="every pattern of up to 5 (6) bytes against every address of up to 4 (5) bytes, any byte values; three deep patterns of 1000+ alternatives or positions; 23 forms of unbalanced brackets and braces",
  jobs=[J("match.c", "h_match_any", "none match error", quick=Q(PL=5, AL=4), thorough=Q(PL=6, AL=5)), J("match.c", "h_match_malformed"), J("match.c", "h_match_deep")])
C("B01", bounds="bundles of up to 2 (3) messages with arbitrary addresses of up to 3 characters, queries of up to 3 (4) characters with wildcards, both match modes; 33 matches; six malformed patterns; messages without typetags; bundles of 4 to 40 messages",
  jobs=[J("bndl.c", "h_lookup", "hit miss", quick=Q(NMSG=2, QLEN=3), thorough=Q(NMSG=2, QLEN=4)), J("bndl.c", "h_lookup_u", "hit miss", quick=Q(NMSG=1, QLEN=3), thorough=Q(NMSG=2, QLEN=4)), J("bndl.c", "h_lookup_many"), J("bndl.c", "h_lookup_malformed"), J("bndl.c", "h_lookup_bare")] + [J("big.c", "h_lookup")])
C("B02", bounds="bundles of up to 3 messages of up to 2 arguments, up to 2 appends from every starting point; up to 40 messages appended one by one",
  jobs=[J("bndl.c", "h_append"), J("bndl.c", "h_append_b"), J("bndl.c", "h_wrapmsg"), J("bndl.c", "h_concat")] + [J("big.c", "h_edits")])
C("B03", bounds="bundles of up to 2 (3) messages, every position, addresses of up to 9 characters; bundles of 4 to 40 messages, first, middle and last",
  jobs=[J("bndl.c", "h_remove", "removed absent", quick=Q(NMSG=2), thorough=Q(NMSG=3)), J("bndl.c", "h_rename", "renamed refused"), J("bndl.c", "h_replace", quick=Q(NMSG=2), thorough=Q(NMSG=3))] + [J("big.c", "h_edits")])
C("B04", bounds="pairs of bundles of up to 2 (3) messages each, addresses of up to 3 characters; operands of no bytes against up to 3 messages; bundles of 4 to 40 messages against every second or third of them",
  jobs=[J("bndl.c", "h_set_void"), J("bndl.c", "h_set_s", "union intersection difference", quick=Q(NMSG=2), thorough=Q(NMSG=3))] + [J("big.c", "h_edits")])
C("B05", bounds="pairs of bundles of up to 2 (3) messages; every sequence of up to 3 (4) of 8 edits",
  jobs=[J("bndl.c", "h_set_u", "union intersection", quick=Q(NMSG=2), thorough=Q(NMSG=3)), J("bndl.c", "h_noaddr_u"), J("bndl.c", "h_edit_u", "add replace remove clear", quick=Q(NOPS=3), thorough=Q(NOPS=4))])
C("D01", bounds="every sequence of up to 4 (6) of 7 operations with every int index; destructor present or absent; lists of 5 to 33 elements, any of them removed",
  jobs=[J("data.c", "h_list", "append prepend clear clone done", quick=Q(NOPS=4), thorough=Q(NOPS=5))] + [J("big.c", "h_list")])
C("D02", bounds="two arbitrary keys of up to 2 bytes and an arbitrary query; every sequence of up to 4 (5) of 4 operations over 4 keys, two of them colliding, three table sizes",
  jobs=[J("data.c", "h_hash_keys", "hit miss", quick=Q(KA=1), thorough=Q(KA=2)), J("data.c", "h_hash_many", "hit miss"), J("data.c", "h_hash_ops", "store remove clear done", quick=Q(NOPS=3), thorough=Q(NOPS=4))])
C("D03", bounds="arrays of up to 4 elements of 1, 4 or 12 bytes, every 64-bit index, destinations of 0-6 elements, offsets 0-2; arrays of 4000 and 9000 elements of 8 bytes; arrays of 5 to 65 atoms; arrays of up to 3 messages or bundles",
  jobs=[J("data.c", "h_array"), J("data.c", "h_array_long"), J("data.c", "h_atoms"), J("data.c", "h_values", "Int32 Int64 UInt32 UInt64 Bool Float Double"), J("edit.c", "h_objects"), J("data.c", "h_strings")] + [J("big.c", "h_arrays")])
C("D04", bounds="every pair of the 256 type characters; up to two arrays of up to two atoms of 14 types",
  jobs=[J("data.c", "h_typetags"), J("data.c", "h_largest")])
C("T01", bounds="every pair of 64-bit timetags; as floating-point numbers: every whole second, and eight seconds with ten fractions each; the current time: every second of the clock until 2036 at 256 microseconds, both ends of a second among them", jobs=[J("data.c", "h_tt_arith"), J("data.c", "h_tt_float"), J("data.c", "h_tt_frac"), J("data.c", "h_now")])
C("T02", bounds="every 64-bit timetag", jobs=[J("data.c", "h_tt_header")])
C("T03", bounds="first, second, 28th and last day of every month of ten years (thorough: every year from 1900 to 2036) at four times of day and three fractions; every second of a minute with every buffer size to 32",
  jobs=[J("data.c", "h_iso", thorough=Q(YEARS=1)), J("data.c", "h_iso_sec")])
C("S01", bounds="bundles of up to 2 (3) messages of up to 2 arguments with arbitrary address characters; message sizes up to 1028; every message of up to 6 arguments of 16 types and every wrong byte of its padding; every size; single-byte corruptions of every kind and 24 addresses with malformed brackets, in a bundle and outside of one; every 64-bit state",
  jobs=[J("data.c", "h_serial_ok", "bundle message", quick=Q(NMSG=1), thorough=Q(NMSG=2)), J("data.c", "h_serial_big"), J("data.c", "h_serial_bad", "header first slash typetags typetag size brackets done"), J("data.c", "h_serial_pattern"), J("data.c", "h_serial_naked", "typetags typetag brackets open"), J("data.c", "h_serial_str"), J("data.c", "h_serial_tags", "good padding"), J("data.c", "h_serial_size", "negative size")])
C("B06", bounds="every sequence of up to 3 (4) of 7 edits with every int position on messages of up to 3 arguments, then emptying the message; every typed append, prepend and insert on messages of up to 2 arguments; lists of 4 to 33 arguments with an insertion and a removal at the ends and the middle",
  jobs=[J("edit.c", "h_edit", "append prepend insert remove move clear array", quick=Q(NOPS=3), thorough=Q(NOPS=4)), J("edit.c", "h_typed"), J("edit.c", "h_msg")] + [J("big.c", "h_args")])
C("B07", bounds="atoms of 17 types, messages of up to 2 arguments, bundles of up to 2 messages with nested bundles, either object changed and freed first; messages of up to 65 arguments, bundles of up to 40 messages, nesting up to 16 deep",
  jobs=[J("edit.c", "h_copy_msg_u", quick=Q(NOPS=2), thorough=Q(NOPS=3)), J("edit.c", "h_copy_bndl_u"), J("edit.c", "h_copy_atom"), J("edit.c", "h_copy_s"), J("edit.c", "h_add_copies")] + [J("big.c", "h_message"), J("big.c", "h_bundle"), J("bigtext.c", "h_deep")])
C("B08", bounds="trees of up to 2 messages with bundles nested up to three deep, four separators, every level limit from -1 to 2; bundles of up to 3 messages of up to 3 address components, prefixes of one another or not; every address of up to 6 (8) characters over three characters; addresses of 1 to 12 components exploded to four limits and flattened back",
  jobs=[J("shape.c", "h_flatten", quick=Q(NMSG=1), thorough=Q(NMSG=2)), J("shape.c", "h_explode", "roundtrip done", quick=Q(NMSG=1), thorough=Q(NMSG=2)), J("shape.c", "h_explode_over"), J("shape.c", "h_explode_any", quick=Q(ALEN=6), thorough=Q(ALEN=8))] + [J("bigtext.c", "h_tree")])
C("B09", bounds="bundles of up to 2 messages with addresses of up to 5 characters (the first with wildcards), up to 2 distinct selectors of up to 3 characters, both strip modes; bundles of 4 to 40 messages with 1 to 17 selectors",
  jobs=[J("bndl.c", "h_query", "complete partial unmatched", quick=Q(NMSG=2, NSEL=2, MLEN=3, QLEN=2), thorough=Q(NMSG=2, NSEL=2, MLEN=4, QLEN=3)), J("bndl.c", "h_query", "complete partial unmatched", quick=Q(NMSG=1, NSEL=1, MLEN=5, QLEN=3), thorough=Q(NMSG=2, NSEL=1, MLEN=6, QLEN=4))] + [J("big.c", "h_query")])

C("F01", bounds="atoms of 17 types (floats and timetags from a table of 14 and 3 values, everything else every value), messages of up to 2 arguments, bundles of up to 2 messages with nesting; every buffer size from 0 to 24 and the full size; texts of 8 to 33 messages, 7 to 65 arguments, strings of 31 to 2048 bytes, addresses of 15 to 300, blobs of 8 to 300, nesting 2 to 12 deep, into buffers of six sizes",
  jobs=[J("fmt.c", "h_fmt_atom", "fits short", quick=Q(STRMAX=4), thorough=Q(STRMAX=5, NTV=3, NMAX=24)), J("fmt.c", "h_fmt_getstring", "alloc buffer", quick=Q(STRMAX=4), thorough=Q(STRMAX=5, NTV=3)), J("fmt.c", "h_fmt_msg", "fits short", quick=Q(STRMAX=2), thorough=Q(STRMAX=3, NMAX=16)), J("fmt.c", "h_fmt_bndl", "fits short", quick=Q(STRMAX=1), thorough=Q(STRMAX=2, NMAX=16))] + [J("bigtext.c", "h_text")])
C("F02", bounds="bundles of up to 2 messages of up to 2 arguments of 17 types, any value (floats and timetags from a table); the larger texts of F01", jobs=[J("fmt.c", "h_same_text", quick=Q(STRMAX=3), thorough=Q(STRMAX=4))] + [J("bigtext.c", "h_text")])
C("F03", bounds="every string of up to 4 (6) bytes and every buffer size; every character", jobs=[J("fmt.c", "h_quote", "fits short add plain", thorough=Q(SLEN=6)), J("fmt.c", "h_meta")])
C("E01", bounds="strings of up to 2 (4) characters joined with each other and with 4 integers of 3 types; 5 timetags with 8 numbers of seconds and with each other; empty lists against lists of 2 and 3; every pair of values of the ten numeric types for + - * / (infix and functional), ++ and -- (prefix and postfix), += -= *= /= and unary minus, on lists of length 1; lists of up to 2 elements of three (thorough: six) types; lists of 4 to 65 elements (+, - and * of three integer types)",
  jobs=[J("expr.c", "h_arith", quick=Q(NA=1), thorough=Q(NA=1)), J("expr.c", "h_arith", quick=Q(NA=2, TYPES='"id"'), thorough=Q(NA=2, TYPES='"iHd"')), J("expr.c", "h_incr", quick=Q(NA=1), thorough=Q(NA=1)), J("expr.c", "h_incr", quick=Q(NA=2, TYPES='"id"'), thorough=Q(NA=2, TYPES='"iHd"'))] + [J("bigexpr.c", "h_elements"), J("expr.c", "h_add_text", quick=Q(STRMAX=2), thorough=Q(STRMAX=4)), J("expr.c", "h_add_time"), J("expr.c", "h_empty")])
C("E02", bounds="every pair of values of the ten numeric types, strings of up to 3 (4) bytes, timetags, nil and booleans, on lists of length 1; lists of up to 2 elements of two (three) types; lists of 4 to 65 integers of which two have every value",
  jobs=[J("expr.c", "h_rel", "numbers strings timetags nil mixed", quick=Q(NA=1, STRMAX=3), thorough=Q(NA=1, STRMAX=4)), J("expr.c", "h_rel", "numbers", quick=Q(NA=2, TYPES='"id"', KLO=0, KHI=0), thorough=Q(NA=2, TYPES='"ihd"', KLO=0, KHI=0)), J("expr.c", "h_rel", "timetags nil", quick=Q(NA=2, KLO=2, KHI=3), thorough=Q(NA=3, KLO=2, KHI=3)), J("expr.c", "h_logic", quick=Q(NA=1), thorough=Q(NA=2))] + [J("bigexpr.c", "h_elements")])
C("E06", bounds="every expression of 2 binary operators chosen from the whole table over three numbers (thorough: 3 operators), with and without a unary or assignment operator mixed in; operand values symbolic int32; 3 to 33 operators in a row, nested to the left or right, as function calls, as assignments and as a sequence", jobs=[J("expr.c", "h_prec", "value error", thorough=Q(NOP=3)), J("expr.c", "h_prec_mixed", "value error")] + [J("bigexpr.c", "h_terms")])
C("E03", bounds="bundles of up to 2 messages of 4 addresses holding up to 1 value of nine types; twelve forms (assignment of values and of other addresses, chains, ??=, compound operators, delete, bound, exists); assignment to every int index of messages of up to 2 values; literals of up to 120 elements or 1024 characters; bundles of 8 to 33 messages", jobs=[J("expr.c", "h_assign", "done failed", quick=Q(STRMAX=2), thorough=Q(STRMAX=3, NV=2)), J("expr.c", "h_assign_index", "outside done failed", quick=Q(NV=2), thorough=Q(NV=3)), J("expr.c", "h_assign_index", "outside done failed", quick=Q(NV=2,KLO=4,KHI=5), thorough=Q(NV=3,KLO=4,KHI=5))] + [J("bigexpr.c", "h_literal"), J("bigexpr.c", "h_bound")])
C("E04", bounds="lists of up to 2 elements (thorough: 3) of integers, doubles and strings with every value (numeric summaries: 9 to 11 values per type, over int32, int64, double and uint8; cumulative sums over nine integer types and doubles), every index, fills of -1 to 3, arithmetic sequences over five starts, differences and steps of -3 to 3, blobs of up to 5 bytes; three lists of 0 to 3 (4) elements; lists of 4 to 65 elements", jobs=[J("list.c", "h_select", "empty done", thorough=Q(LA=3)), J("list.c", "h_nth", "outside done", thorough=Q(LA=3)), J("list.c", "h_three"), J("list.c", "h_nth_blob", "outside done"), J("list.c", "h_sort", quick=Q(LA=3, ST='"d"'), thorough=Q(LA=4, ST='"d"')), J("list.c", "h_sort", quick=Q(LA=2, ST='"is"', STRMAX=2), thorough=Q(LA=2, ST='"ids"', STRMAX=2)), J("list.c", "h_minmax", quick=Q(LA=3, TYPES='"d"'), thorough=Q(LA=4, TYPES='"d"')), J("list.c", "h_minmax", quick=Q(LA=2, TYPES='"i"'), thorough=Q(LA=2, TYPES='"ifhd"')), J("list.c", "h_minmax", quick=Q(LA=2, TYPES='"cCuU"'), thorough=Q(LA=3, TYPES='"cCuU"')), J("list.c", "h_numeric", quick=Q(ANY=1, NUMT='"id"', KLO=0, KHI=3), thorough=Q(ANY=1, NUMT='"id"', KLO=0, KHI=3, LA=3)), J("list.c", "h_numeric", "empty done", quick=Q(ANY=1, NUMT='"d"', KLO=4, KHI=9), thorough=Q(ANY=1, NUMT='"d"', KLO=4, KHI=9)), J("list.c", "h_numeric", "done", quick=Q(ANY=1, NUMT='"i"', KLO=6, KHI=9), thorough=Q(ANY=1, NUMT='"ih"', KLO=6, KHI=9)), J("list.c", "h_numeric", quick=Q(ANY=1, NUMT='"cCuU"', KLO=6, KHI=7), thorough=Q(ANY=1, NUMT='"cCuU"', KLO=6, KHI=9)), J("list.c", "h_numeric", "empty done", quick=Q(NUMT='"ihdf"', KLO=4, KHI=5), thorough=Q(LA=2, NUMT='"ihdcCf"')), J("list.c", "h_numeric", quick=Q(NUMT='"ihdcC"', KLO=1, KHI=1), thorough=Q(LA=3, KLO=1, KHI=1, NUMT='"ihd"')), J("list.c", "h_cumsum", thorough=Q(LA=3, CT='"cCuUiIhH"')), J("list.c", "h_seq", "error done"), J("list.c", "h_nfill", thorough=Q(LA=3))] + [J("bigexpr.c", "h_lists"), J("bigexpr.c", "h_order")])
C("E05", bounds="every text of at most 3 (quick) / 4 (thorough) bytes, and every sequence of at most 3 / 4 tokens out of a vocabulary of 35 (addresses, names, numbers, strings, characters, every bracket and operator, lambda, quote, hex numbers, calls); the tables of the generated scanner and parser are data of the encoding; expressions nested up to 90 deep or of up to 2049 characters in one token", jobs=[J("parse.c", "h_parse_any", "parsed error", quick=Q(PL=3), thorough=Q(PL=4)), J("parse.c", "h_parse_tokens", "parsed error", quick=Q(NT=3), thorough=Q(NT=4))] + [J("bigexpr.c", "h_long", "parsed error")])
C("P01", bounds="every text of up to 4 (5) bytes; every text of up to 3 (4) bytes behind '/a:'; every sequence of up to 4 (5) tokens out of a vocabulary of 22, alone and inside an open list or bundle; strings of up to 4 (6) plain or escaped characters; texts of up to 67 nested bundles, list elements or messages, and of one word or string of up to 4096 characters", jobs=[J("bparse.c", "h_text_any", "parsed error", quick=Q(PL=4), thorough=Q(PL=5)), J("bparse.c", "h_text_value", "parsed error", quick=Q(PL=3), thorough=Q(PL=4)), J("bparse.c", "h_text_tokens", "parsed error", quick=Q(NT=4), thorough=Q(NT=5)), J("bparse.c", "h_text_list", "parsed error", quick=Q(NT=4), thorough=Q(NT=5)), J("bparse.c", "h_text_string", "parsed error escapes", quick=Q(NT=4), thorough=Q(NT=6))] + [J("bigexpr.c", "h_long_text", "parsed error")])
C("P02", bounds="one argument of 13 types (strings of up to 4 (6) arbitrary bytes, integers within 8 of twelve borders of types and digit counts, 18 64-bit integers, 13 doubles, 4 timetags); bundles of up to 2 messages of up to 2 arguments; bundles nested in the second level with up to 2 messages; decimal literals of up to 3 (5) digits and around 2^31, 2^63 and 2^64, hexadecimal of up to 3 digits, floating-point of up to 2 digits; the larger texts of F01 without blobs", jobs=[J("bparse.c", "h_back_arg", quick=Q(STRMAX=4), thorough=Q(STRMAX=6)), J("bparse.c", "h_back_wide"), J("bparse.c", "h_back_bndl", quick=Q(STRMAX=2), thorough=Q(STRMAX=3)), J("bparse.c", "h_back_nest", quick=Q(STRMAX=2)), J("bparse.c", "h_literal", "decimal hex float word", thorough=Q(DIG=5))] + [J("bigtext.c", "h_back")])
C("P03", bounds="every text of up to 3 (5) bytes; every text of up to 3 (5) bytes behind '/a ' and before a newline; every sequence of up to 3 (5) tokens out of a vocabulary of 18, and of up to 3 (4) inside an open bundle; a line of up to 2 arguments, and two lines of up to one, of 13 kinds (quoted strings of up to 3 arbitrary bytes, eight integers around the borders of the types, a nested bundle)", jobs=[J("legacy.c", "h_any", "parsed error", quick=Q(PL=3), thorough=Q(PL=5)), J("legacy.c", "h_value", "parsed error", quick=Q(PL=3), thorough=Q(PL=5)), J("legacy.c", "h_tokens", "parsed error", quick=Q(NT=3), thorough=Q(NT=5)), J("legacy.c", "h_nested", "parsed error", quick=Q(NT=4), thorough=Q(NT=5)), J("legacy.c", "h_lines")])
C("E07", bounds="every function of the table (quote and lambda apart) on every list of up to 3 argument messages (more arguments than 3 repeat them) of 8 kinds: empty, int32, double, string, blob, bundle, timetag, boolean (thorough: 14 kinds, with nil, int64, float and lists of two); numbers from 16 boundary integers and 8 doubles (aseq and the string searches: 3 to 4), strings from 6, blobs of 0-8 bytes; the arithmetic and comparison functions on the first 4 (14) kinds, the string searches on the first 5 or 6",
  jobs=[J("func.c", "h_func", "value error", quick=Q(NCLS=n, STRMAX=2, FLO=a, FHI=b), thorough=Q(NCLS=14, STRMAX=2, FLO=a, FHI=b)) for a, b, n in ((0, 34, 4), (35, 60, 8), (61, 98, 8), (100, 122, 8), (127, 160, 8), (161, 195, 8))]
  + [J("func.c", "h_func", "value", quick=Q(NCLS=n, STRMAX=2, CONC=c, FLO=a, FHI=b), thorough=Q(NCLS=14, STRMAX=2, CONC=c, FLO=a, FHI=b)) for a, b, n, c in ((99, 99, 6, 4), (123, 125, 6, 3), (126, 126, 5, 2))])
C("R01", bounds="bundles of up to 2 messages with addresses of up to 5 (6) characters (the first with wildcards), up to 2 selectors of up to 3 (4) characters, stripped or not, with and without a delegation method, dispatched to all and to every subset of the selectors; every sequence of up to 3 (4) registrations, rebinds and renames over 5 names starting from 0 to 2 slots", jobs=[J("bndl.c", "h_dispatch", "complete partial unmatched", quick=Q(NMSG=2, NSEL=2, MLEN=3, QLEN=2), thorough=Q(NMSG=2, NSEL=2, MLEN=4, QLEN=3)), J("bndl.c", "h_dispatch", "complete partial unmatched", quick=Q(NMSG=1, NSEL=1, MLEN=5, QLEN=3), thorough=Q(NMSG=2, NSEL=1, MLEN=6, QLEN=4)), J("bndl.c", "h_vtable", "entries empty", quick=Q(NOPS=3), thorough=Q(NOPS=4))])
C("E11", bounds="every string of up to 4 (6) characters; all 196 functions and 18 categories with their prefixes; every combination of the 9 argument types; category strings of up to 300 characters with any first or last character",
  jobs=[J("intro.c", "h_lookup", "found unknown", thorough=Q(LMAX=6)), J("intro.c", "h_types"), J("intro.c", "h_doc"), J("intro.c", "h_arity", "accepted refused applied"), J("intro.c", "h_cats", opts=["--steps", "60000000"]), J("intro.c", "h_incat", opts=["--steps", "60000000"]), J("intro.c", "h_anycat", "some none", opts=["--steps", "60000000"])])
C("E12", bounds="expressions of depth 2 of up to 2 (3) arguments of every kind; up to 3 linked expressions of up to 4 arguments; ten texts; environments of 3 names and up to 3 (4) bindings",
  jobs=[J("intro.c", "h_tree", quick=Q(NA=2, DEEP=0), thorough=Q(NA=2, DEEP=1)), J("intro.c", "h_tree", quick=Q(NA=1, LONGN=300), thorough=Q(NA=1, LONGN=600, DEEP=1)), J("intro.c", "h_linked"), J("intro.c", "h_shown"), J("intro.c", "h_lexenv", quick=Q(NB=3), thorough=Q(NB=4)), J("intro.c", "h_evalenv")])
C("E10", bounds="31 functions of one number and 8 of two on lists of up to 2 (3) elements of every value of the ten numeric types (lists: int32 and double), with the C library's functions uninterpreted; the constants; the formulas on 9 numbers; remainders of 13 by 13 integers (as integers and doubles), clip of 9 cubed integers, scale of 4 to the 5th; cross products and determinants of small integer matrices of up to 5 rows; hulls of 3 to 5 points of a grid of nine; bit operations and byte order on every value; casts on every representable value", jobs=[J("maths.c", e, r, quick=Q(), thorough=Q(LA=3, HL=5)) for e, r in (("h_unary", "empty done"), ("h_binary", "done"), ("h_const", "done"), ("h_formula", "done"), ("h_mod", "done"), ("h_clip", "done"), ("h_scale", "done"), ("h_cross", "error done"), ("h_det", "done"), ("h_hull", "few done"), ("h_bits", "done"), ("h_order", "done"), ("h_cast", "done"))])
C("E09", bounds="every string of up to 3 (5) bytes (text searched or split: one more; the part to find and the separator 1 or 2 bytes), every int32 position, lists of 1 or 2 positions, up to 2 parts joined, type characters of lists of up to 2 elements of 16 types; match of 1 or 2 patterns of up to 3 (4) characters against up to 2 addresses of up to 3 (4); strings of 15 to 1000 characters", jobs=[J("maths.c", e, r, quick=Q(SL=3), thorough=Q(SL=5)) for e, r in (("h_strlen", "done"), ("h_strcmp", "done"), ("h_strchar", "done outside"), ("h_strfind", "found absent"), ("h_split", "parts nothing"), ("h_join", "done"), ("h_types", "done"))] + [J("maths.c", "h_fmatch", "full partial done", thorough=Q(MP=4)), J("bigexpr.c", "h_strings")])
C("E08", bounds="tests of six types, branches of 0 to 2 values; operators - + * by name, as a lambda, as a name held by a message and as nested lambdas, on lists of up to 2 (3) int32 values (or one double), maps and reductions of up to 3 (4) elements with and without an initial value; six scoping patterns and 216 of nested functions of two parameters; bundles of up to 2 messages of 4 addresses with up to 1 value of nine types and every timetag; bundles in the bundle of up to 2 members, at two positions; eleven forms of access to members; seven forms of quote, eval and tokenize over four texts; maps and reductions of 4 to 65 elements", jobs=[J("spec.c", e, r, quick=Q(STRMAX=2), thorough=Q(STRMAX=3, LA=3)) for e, r in (("h_if", "done error"), ("h_short", "done error"), ("h_apply", "done"), ("h_map", "done empty"), ("h_reduce", "done"), ("h_scope", "done"), ("h_names", "done"), ("h_query", "done"), ("h_edit", "done emptied"), ("h_member", "done unbound"), ("h_bundle", "done"), ("h_eval", "done text"))] + [J("bigexpr.c", "h_map"), J("bigexpr.c", "h_tokens")])
