HEAD = """# Solver-based checking of CNMAT/libo

`properties.jsonl` lists the properties; `bin/check ID quick|thorough` decides one of them on /repo's current tree. This file is generated by `lib/mkdesign.py` from the same tables the checks use.

## Machinery

1. **Encoding** (`lib/driver.py`). Every run mirrors /repo's working tree into a scratch folder, runs bison and flex on the grammars, compiles every library source with `clang -O0 -emit-llvm` (the Linux branch, `-std=c99`), links the result, and applies only `sroa` and `simplifycfg`. Nothing about the library is written down in /verif; renaming or splitting static functions, reordering statements or rewriting loops only changes the bitcode. A few static helpers are not reached except through the public functions.
2. **Engine** (`engine/vsym`, about 1,350 dense lines of C++ against LLVM's IR library and Z3). It executes the bitcode with a concrete memory layout and symbolic contents. Harness inputs (`in_u8` ... `in_u64`) are unconstrained bit-vectors. At a branch on a symbolic condition, feasibility of both sides is decided (byte-domain propagation and reuse of earlier models first, then Z3 over bit-vectors and floating point), and both feasible sides are explored. Symbolic pointers are resolved to every feasible object offset. A `CHECK` is a query for a model of the path condition and the negated assertion: unsat means the assertion holds for all values on that path; a model is a counterexample. The engine itself asserts at every access that it lies inside a live object (heap, stack, global; allocation sizes are exact, so one byte too far is seen), that frees are of live blocks, that no undefined value decides a branch, and at every call of a variadic function that no argument beyond those passed is read (the variable argument area has exactly the size of what was passed). A path that passes the step limit is reported as a suspected hang. Functions called through pointers (the expression language's dispatch tables) are resolved like any other pointer. Large read-only tables indexed by symbolic bytes (the flex and bison tables) are handled by splitting on the address when it has few values. Exploration is distributed over 8 processes.
3. **C library** (`lib/vlibc.c`): plain C bodies for the string functions, strto*, qsort, gmtime and so on, executed symbolically like the rest; printf-family formatting is a model in the engine (integers by digit-exact symbolic expansion, floating point for concrete values only). libm functions other than the exactly definable ones (fabs, floor, ceil, trunc, sqrt, fmod ...) are uninterpreted.
4. **Replay**. Every counterexample is replayed on the real code: the same harness source is compiled natively with AddressSanitizer (or MemorySanitizer for uninitialised reads), linked with natively compiled library objects, and fed the model's values. Only a reproduced failure is a VIOLATION; models that do not reproduce are counted as `unconfirmed_models` in the evidence and not believed. In addition a sample of completed symbolic paths is replayed and the labels reached are compared, which validates the engine against the implementation (`traces_validated_against_impl`).
5. **Vacuity**. Every job names the `REACH` labels it has to reach; a missing one is printed as UNREACHED and stored in the evidence.

Exit code 0: nothing reported; 1: a reproduced violation that known_findings.json does not list as open; 2: the tree does not build.

Bounded means bounded: outside the stated sizes, counts and steps nothing is claimed. Common assumptions: allocations of at most 1 MB succeed (failure paths of malloc are not explored), x86-64 little-endian, the `-O0` semantics of clang, Linux branch of the sources (no Windows/Max-specific branches), single thread. Not looked at: the optimised build's behaviour under undefined behaviour other than memory errors (signed overflow, shifts), the Max/Pd externals, and the `mex`/contrib tools.

Time limits inside a check: 150 s for quick, 780 s for thorough; a job that does not finish in its share is reported as PARTIAL in the output and `complete: false` in the evidence, with what was left undecided. Almost all jobs finish. `PARTIAL` never hides a violation found before the limit.
"""
TAIL = """## Properties corrected while building

In each case a check reported something that turned out to be what the library means to do; the property text and the harness were changed to say so, and none of it is listed as a finding.

- B04, B05: union, intersection and difference keep duplicate addresses of the left bundle or drop them as the statements now say; the difference is the symmetric one. Addresses are plain, because the set operations compare with osc_match.
- B09: with wildcards in selectors the result depends on the order of the selectors by design; the property covers plain selectors.
- W07: float-to-integer conversions out of range are undefined in C and excluded.
- T01: osc_timetag_subtract is the absolute difference.
- M01: empty sets and empty alternatives are not valid patterns (M02 covers their safety), and an address component that is just '*' matches anything, as the code intends.
- P02: '/' alone and addresses with spaces or '#' are not addresses for osc_error_validateAddress, a comma after an address is punctuation, and timetags are written to the microsecond.
- A bundle with a date in local time, `[a:b]` ranges in expressions (commented out in the grammar) and strtime formats are not claimed by any property.
- Zero-size variable-length arrays are reported by the native replay (`vla-bound`): they are undefined behaviour, and each one was repaired.
"""
