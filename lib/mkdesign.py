# writes /verif/DESIGN.md from the tables here, checks.py, known_findings.json and seeded/*/meta.json
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from checks import CHECKS, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
K = json.load(open(V + "/known_findings.json"))["findings"]
# what decides each property: (oracle, why this reaches what tests cannot)
OR = {
"W01": ("an independent OSC encoder in harness/gen.h (written from the OSC 1.0 layout, no library calls)", "all values of all types at once; reuse of atoms that held another type is a second harness"),
"W02": ("a buffer of exactly n bytes between guards: any write outside is a memory violation of the engine; the announced size is compared with gen.h's encoding", "every n, not the few a test picks"),
"W03": ("gen.h's bundle encoder, nested bundles included", "counts, nesting and order with symbolic contents"),
"W04": ("a reference tiling walk over the same bytes in the harness; the bytes are fully symbolic", "the solver constructs the malformed lengths itself"),
"W05": ("offsets computed by gen.h from the argument list", "any int index, argument offsets cached or not"),
"W06": ("arithmetic formulae", "all 2^64 values"),
"W07": ("a C cast from the value's own type", "type x getter x every bit pattern"),
"W08": ("gen.h's encoding of the message with that one argument replaced", "every position and value"),
"M01": ("a recursive matcher on the token list the pattern was generated from", "backtracking with symbolic characters: the solver decides which characters coincide"),
"M02": ("memory safety of the engine, step limit, offsets compared with the string lengths", "every byte string, malformed ones included"),
"B01": ("harness filters the generated messages with M01's matcher", "all relations between addresses and query"),
"B02": ("gen.h's encoding of the expected message sequence", "every start bundle and append sequence"),
"B03": ("gen.h's encoding of the edited message sequence", "every position and size relation"),
"B04": ("set comprehension over the generated messages", "all equalities between the addresses of two bundles"),
"B05": ("a sequence model edited in step with the library; heap balance", "multi-step histories with ownership"),
"B06": ("a sequence model edited in step with the library; forward and backward walk, heap balance", "every operation sequence and position"),
"B07": ("byte comparison before and after changing or freeing either object; heap balance", "aliasing for every type and order"),
"B08": ("a reference exploder/flattener over component lists in the harness", "prefix relations between symbolic components"),
"B09": ("reference partition by equality / component prefix", "all relations between selectors and addresses"),
"T01": ("64-bit arithmetic", "all pairs"), "T02": ("big-endian bytes", "all values"), "T03": ("days-from-civil computed in the harness", "every calendar boundary"),
"F01": ("own formatter of the expected text (printf models in the engine), guarded buffers of exactly n bytes", "every n against every value"),
"F02": ("one form against the other", "two formatters, all types"), "F03": ("an unquoting reader in the harness", "all byte strings and sizes"),
"P01": ("memory safety, step limit and heap balance of the engine on the real generated tables; the sanity checker of W04 on the serialised result", "every text of the stated length, token sequences beyond"),
"P03": ("the generated lines themselves; the checks of bounds, of the heap and of osc_error_bundleSanityCheck", "texts of symbolic bytes through the generated scanner and parser tables, and lines whose form the solver picks"),
"P02": ("the generated bundle itself, with the documented widening of integers", "strings with symbolic bytes: the solver finds the character that one direction treats differently"),
"R01": ("a reference table of selectors and a reference prefix match in the harness", "histories of registrations and renames with growth"),
"E01": ("C arithmetic in the promoted type, written in harness/expr.h", "type pairs x all values"),
"E02": ("the C relation on exact values", "type pairs x all values"),
"E03": ("gen.h's encoding of the expected bundle after the assignment; whole bundle compared byte for byte", "address present or absent, first or last, any size change"),
"E04": ("sequence definitions over the generated list", "every index and length, boundary values"),
"E05": ("memory safety, step limit and heap balance of the engine on the real generated LALR tables and scanner tables", "every text of the stated length"),
"E06": ("the fully parenthesised text of the same expression, evaluated by the same evaluator on symbolic operands", "all operator pairs"),
"E07": ("memory safety, the encoding of the unchanged bundle, typed elements, heap balance", "every function x argument kinds"),
"E08": ("a reference model of the bundle and of the list forms in the harness; encodings compared byte for byte", "which operands are evaluated, scoping, members of bundles"),
"E09": ("reference string functions in the harness", "every string and position"),
"E10": ("the uninterpreted function of the C library applied to the same operand; reference integer arithmetic and matrices", "every numeric value and type, broadcasting"),
"E11": ("the table of names, arities and categories in harness/functable.h; the text of each set of types computed in the harness", "every string, every function, every set of types"),
"E12": ("the text of the expression computed while it is built; an array of bindings", "shapes of expressions, order of building and freeing"),
"X02": ("the answer recorded for each call in harness/nullt.h", "every call with every integer"),
"D01": ("a sequence model", "all histories"), "D02": ("a map model", "colliding keys chosen by the solver"), "D03": ("index arithmetic; guarded buffers", "every index"), "D04": ("a rank table", "all 65536 pairs"),
"S01": ("the packets are generated well-formed, or with one known defect at a known byte", "every byte of every packet"), "X01": ("the grammar of an address", "all strings"),
}
exec(open(V + "/lib/design_extra.py").read()) if os.path.exists(V + "/lib/design_extra.py") else None
o = []; w = o.append
w(HEAD)
w("## Properties and how each is decided\n")
w("Every job below is one harness function, executed symbolically over the library's bitcode. *q* and *t* are the macro settings of the quick and thorough tiers. The evidence file of each check repeats the bounds and adds the functions encoded with the share of basic blocks reached, paths, queries, solver verdicts and times, and for every job whether it was exhausted (`complete`) within the bounds in the time it got.\n")
for p in props:
    i = p["id"]; w("### %s %s\n" % (i, p["title"]))
    if i not in CHECKS: w("Not applicable: %s\n" % NA.get(i, "check not built yet")); continue
    c = CHECKS[i]; a, b = OR[i]
    w("*Oracle*: %s. *Reach beyond tests*: %s. *Bounds*: %s.\n" % (a, b, c.get("bounds", "")))
    f = lambda d: " ".join("%s=%s" % x for x in d.get("defs", {}).items()) or "-"
    for j in c["jobs"]: w("- `%s:%s` q: %s t: %s" % (j["h"], j["entry"], f(j.get("quick", {})), f(j.get("thorough", {}))))
    w("")
w("## Defects of CNMAT/libo found\n")
w("All were reported by a check (or met while writing its oracle), reproduced against the real code and, unless listed as open, repaired in one `fix:` commit each. A fixed entry suppresses nothing.\n")
for k in K: w("- %s %s %s: %s" % (k["status"], k["property"], k.get("commit", ""), k["what"]))
w("\n## Planted bugs (seeded/)\n")
w("Each patch compiles, passes the 141 stable tests and has a demonstration that fails with it. The last column says which quick checks report it.\n\n| id | property | needs | caught by |\n|---|---|---|---|")
CB = {}
if os.path.exists(V + "/seeded/caught.json"): CB = json.load(open(V + "/seeded/caught.json"))
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); w("| %s | %s | %s | %s |" % (n, d["property"], d["needs"], CB.get(n, d["property"])))
w("\n" + TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
