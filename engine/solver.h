// Decision layers: unary byte domains, model reuse, query cache, Z3 on the independent slice.
#pragma once
#include "expr.h"
#include <z3.h>
#include <unordered_set>
struct Stats { uint64_t z3queries=0, z3sat=0, z3unsat=0, z3unknown=0, domainDecided=0, modelDecided=0, cacheHits=0, knownDecided=0, modelMismatch=0; double z3time=0; };
extern Stats gStats;
typedef std::array<uint64_t,4> Dom8;
enum Res { R_UNSAT=0, R_SAT=1, R_UNKNOWN=2 };
struct CState { // path condition
  std::vector<ERef> multi;                 // constraints not captured by byte domains
  std::unordered_set<ERef> known;          // same, as a set
  std::vector<Dom8> dom; std::vector<uint8_t> domSet, linked; // indexed by var id
  std::unordered_map<ERef,ERef> eqs;       // expr -> const
  std::vector<uint32_t> eqVars;            // sorted var ids touched by eqs
  std::vector<uint64_t> model;             // satisfies everything
};
bool domTest(const CState &c, uint32_t v, unsigned val);
ERef substKnown(CState &c, ERef e);
// may e be true?  On R_SAT, m is a model of path condition and e.
Res mayBeTrue(CState &c, ERef e, std::vector<uint64_t> &m);
void addTrue(CState &c, ERef e, const std::vector<uint64_t> &m); // m must satisfy pc & e
extern unsigned gZ3TimeoutMs;
