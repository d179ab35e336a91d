# writes /verif/known_findings.json: "fixed" entries are a record only; "open" entries are recognised by lib/driver.py
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """6e98ce6 W01 c, C, u and U atoms were serialised from the wrong union member (stale bytes on the wire); short buffers fell through into the next case
cc7e412 W05 osc_message_s_getArg/getTypetag with a negative index read before the typetags
a069860 W05 wrapping new bytes kept the cached offsets and data pointer of the previous message
b238fcc W02 osc_bundle_u_nserialize leaked its iterator when the header does not fit
d0b8af6 B07 atoms that were re-used, copied or held in arrays leaked or dropped their string and blob contents
2eedd5d W07 serialised integer getters did not sign-extend and read c, C, u, U with the wrong width
d427d95 W07 osc_atom_u/s_getBlobCopy copied more bytes than source or destination have
579f217 W07 an 8-byte blob read as UInt64 used only half of its bytes
89d3d86 W04 osc_error_bundleSanityCheck read outside short or malformed buffers and overflowed on huge sizes
5479d78 X01 the error handler used its text as a format and overran its buffer
22045c2 W04 osc_error_msgSanityCheck accepted unterminated addresses and typetags
447ce05 D03 osc_array_get with a negative index read before the array
d569d1f D03 osc_array_copyInto wrote past the end of a shorter destination
ebdf1b6 D03 osc_array_resize to nothing reported an error and kept a dangling pointer
72d9c48 D03 osc_atom_array_*_getStringArray overran its buffer by the separators and terminator
96cbfe8 B02 osc_bundle_s_allocEmptyBundle used an uninitialised struct and allocated too little
b853019 B02 bundles made by wrapping and the set operations had an uninitialised timetag
977e610 B01 osc_bundle_s_addressIsBound computed the typetag position from the query instead of the message
6dbf512 B01 osc_bundle_u_addressIsBound looked at the first match only
2ee310d B05 osc_bundle_u_removeMsg did not update the message count
435b98f B01 a malformed pattern was reported as a partial match
8cf631e B03 osc_message_s_renameCopy read from a null typetag pointer
9642826 B07 a deep-copied serialised message shared (and freed) the offset cache of its source
c67b174 B05 osc_bundle_u_replaceMessage leaked the old address
d4b0a1d B05 messages without an address crashed replacing, removing and looking up
1b9f095 S01 osc_serial decoded only part of the size of a message
1aaf9ce S01 osc_serial lost track after a message without data
22d1ed5 S01 osc_serial rejected blob typetags
a896fd2 S01 osc_serial reported any second comma or dash, not only adjacent ones
b0df337 D02 very large hash tables read past the table of primes
856bcdf D02 osc_hashtab_storeSafe leaked the element it does not store
bfe777c D04 typetags above 127 indexed before the typetag tables
6093f6f T01 osc_timetag_subtract of a later timetag did not borrow
806b75b T03 the ISO 8601 form used wrong leap years
1098bcb D04 typetags above 127 compared inconsistently
f39e168 T03 parsing ISO 8601 without a fraction read an uninitialised value
19a68d0 D03 copying atoms over atoms leaked what they held
d80c0bf B06 inserting at a negative position or re-inserting an atom corrupted the list
c4b0361 B06 prependString/insertString leaked a copy of the string
c1aaa0d B06 osc_atom_u_setBndl leaked what the atom held
8a8e7ca B07 osc_message_u_deepCopy into a message leaked its previous content
862f064 B08 flattening used an atom after freeing it
dc5fef2 B08 exploding with a separator other than a slash recursed forever
91aa390 B09 stripping an address to an invalid one used an uninitialised buffer
c5cdbf5 F01 bounded formatters wrote past or did not terminate a buffer too small for the text
0c67c40 F01 the string length announced for an unsigned char was that of its decimal value
e4bb4ca F01 the text of an empty bundle or of an unknown type was uninitialised memory
dac6d73 F01 the length announced for the text of a timetag was one too many
2c2cf2d E01 subtracting 64-bit or unsigned integers always gave an int32
80721c2 E01 dividing the smallest integer by -1 trapped
c165b3d E01 unsigned chars were divided as signed numbers
1becd2b E01 ++ and -- swapped the types of int64 and uint32 and ignored 8- and 16-bit integers
d70fe86 E02 64-bit integers were compared as doubles
affccab E02 != failed on nil
4affdc2 E02 ! looked at 32 bits of 64-bit integers and ignored 8- and 16-bit ones
9704500 E05 the text quoted in a syntax error was read past its end
f8ae67c E06 the ^ operator named no function and evaluating it crashed
9daf3eb E03 assigning to an index used a message looked up before its operands were evaluated
bb0e426 E05 the token ??= was a trigraph
b6fb818 E04 sums, products and ranges outside int32 lost their value
6f1e85b E04 the product of floats was truncated to an integer
ad43f15 E04 the least, greatest and median element of an empty list were read out of bounds
eef3e60 E04 infinity could not be the least or greatest element
c1c8c55 E04 sortidx leaked its copies of strings
6e52e63 E04 the least or greatest of elements that are all NaN was an atom without a type
14b103f E04 nonzero and sortidx of an empty list declared arrays of no elements
e62f7bd E05 the parser leaked the text of addresses it had copied
dace31e E05 an address between backticks pointed into an atom, which leaked
ec91739 E05 a lambda dropped the expressions after one that is not a call
d4ea7b2 E05 the scanner leaked the buffer of a string with escaped quotes
4497d24 E05 a lambda leaked the arguments it had copied
1a29056 E05 the text of an expression that does not parse was used as a printf format
fa921e7 E05 the parser leaked the buffer of an unterminated string
5e1b591 E07 a call without arguments declared an array of no elements
2f6adb9 E07 if() with an empty list as its test wrote past an array of no elements
e641c68 E07 an argument of another kind is not read as an address, atom, expression or function
952cbe5 E07 apply() checks the number of arguments, handles errors in them and leaves its expression as it was
ade29bf E07 map() of an empty list declared an array of no elements, and errors in its calls were ignored
3ce153c E07 lreduce and rreduce handle the empty list, an initial value and errors in their calls
85649a9 E07 the value of an expression has no elements without a type
b18a8d0 E07 strcmp of an empty list is an error, not a null pointer
0531d6d E07 strfind and split release their copies of the strings on every path
ef0067c E07 join of nothing, with an empty list as separator or of characters that do not print
ab40eff E07 nextafter takes two arguments
b6fcdcc E07 exists() and bound() release the address they have evaluated
46876c9 E07 delete() releases its copy of the address
e6c4e3e E07 emptybundle() releases its argument and passes on errors in it
1dd8079 E07 assign_to_index() leaked the strings and blobs it replaces
0a35ace E07 bundle() of a blob leaked a copy and read the size of the blob as part of the bundle
69a2665 E07 bundle() of bytes that are not a bundle, or of none, was read out of bounds
2864534 E07 blob() and cast() to a blob leaked the blob
e86e5ec E07 match() of no addresses declared an array of no elements
917cdc6 E07 an array whose memory could not be allocated was written to
18b64a1 E07 the number of elements aseq() and nfill() make was converted out of range
5971c01 E07 getaddresses() passes on errors in its argument
78af090 E07 value() and eval() pass on errors in their argument
2202097 E07 tokenize() releases its argument and the text of each token
b101540 E07 tokenize() had no room for every 65th token
78ac811 E07 tokenize() turned == into =
1b21e1b E07 tokenize() lost strings with escaped quotes
79e2b17 E07 compile() stores the expression it is given and releases the name if there is none
3184ff1 E07 settimetag() leaked its argument and, like gettimetag(), needs a bundle
a31f7d4 E07 assign() leaked an address that is not valid
fa57eb2 E07 assign_to_index() went on after an error in its arguments
a830eb6 E07 getbundlemember() leaked and read addresses that are not there
559a6d3 E07 assigntobundlemember() leaked and ignored an error in the value
e52366e E07 blob() of a bundle leaked a copy
30802c8 E07 string() of a blob read past the end of it
3797ce1 E07 string() of a char below -99 lost its last digit
934d363 E07 cast() of a value without bytes to a blob set a blob without data
c08762b R01 growing a vtable left its hash table pointing to the old entries
ca90751 R01 osc_vtable_free() did not free the table itself
23d5376 R01 renaming a vtable entry kept the caller's string as the key
d28c2a2 R01 dispatching without a delegation method called a null pointer
631f8b8 R01 a negative index of a vtable entry was read
19e193d R01 dispatch stripped the matched part of an address by the length of the selector
3670ea1 R01 dispatching with an empty vtable declared arrays of no elements
396637a P01 the bundle parser leaked the buffer of a string with escaped quotes
a1e2d92 P02 the bundle parser truncated integers to 32 bits
889d3db E10 the remainder of integers outside int32 was converted out of range
646619f E10 clip() and scale() of integers outside int32 were converted out of range
5d27965 E10 bitand() and bitor() of unsigned chars gave a signed one
3fce966 E10 det() of a singular matrix of four or more rows was not a number
623578c E10 degtorad() and radtodeg() had six digits
c1ec230 S01 osc_serial did not check for unmatched brackets in a message outside of a bundle
4114273 S01 the names of the states of osc_serial were read past the end of their tables
9d359e2 E11 the documentation of nth() was read past the end of its table of types
9d0ce66 E11 osc_expr_format wrote past the end of its buffer, and left the parameter list of a lambda without parameters open
3f9f46f E11 osc_expr_getFunctionsForCategory overflowed a buffer and set nothing when there were no functions
8e88abb E11 the types of an argument were documented without timetags, in a buffer too small, not set when there were none
57c4100 E11 the category of the bitwise functions was missing from the list of categories
ab08530 E11 adding several arguments at once to an expression without any counted only one
aba874f E11 a copy of an expression argument that is a list had no list
2166fa5 B06 osc_message_u_insertStringPtr copied its string, where append and prepend take it
87efb8a P03 an escaped character in an unquoted word of the legacy parser read and wrote outside the buffer
c378143 P03 the legacy parser lost empty strings
7f35bdf P03 the legacy parser truncated integers to 32 bits
2a34d9c P03 the legacy parser leaked what it had read when the text had a syntax error
18421ef W07 the size of a number as a blob was read from its value, and was wrong when it was zero
921b2c6 W07 copying a value as a blob wrote past the end of a buffer too small for it
f90f22b M01 a character set that starts with a closing bracket matched nothing but that bracket
4184639 T01 the current time went back by a second at the end of every second
5b39dfc E10 quickhull() of points above each other gave only one of them"""
OPEN = []
EXTRA = []
f = [{"status": "fixed", "id": "%s-%s" % (p, c), "property": p, "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for c, p, w in (l.split(" ", 2) for l in FIXED.splitlines())]
json.dump({"findings": OPEN + f}, open(V + "/known_findings.json", "w"), indent=1)
