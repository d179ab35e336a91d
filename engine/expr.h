// Hash-consed bit-vector / IEEE-float expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <array>
#include <algorithm>
#include <cassert>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_ITE, K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FEQ, K_FLT, K_FLE, K_FUNO, K_FPEXT, K_FPTRUNC,
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FSQRT, K_FROUND // FROUND: val = 0 floor,1 ceil,2 trunc,3 round-half-away
};

struct VarSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
  Kind kind; uint8_t nops; uint16_t width;
  uint32_t id;
  uint64_t val;            // CONST value, VAR id, EXTRACT low bit, FROUND mode
  const Expr *op[3];
  const VarSet *vars;
  mutable uint64_t evGen, evVal;
  mutable const uint64_t *tab; // truth table if single 8-bit variable
  mutable uint32_t size;   // DAG size estimate (tree size, saturating)
};
typedef const Expr *ERef;

struct VarInfo { uint16_t width; int kind; std::string name; }; // kind 0 input, 1 undef, 2 uninterpreted
extern std::vector<VarInfo> gVars;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; return (int64_t)(v << (64 - w)) >> (64 - w); }

ERef mkConst(uint64_t v, unsigned w);
ERef mkVar(const std::string &name, unsigned w, int kind);
ERef mkBin(Kind k, ERef a, ERef b);
ERef mkNot(ERef a);      // 1-bit
ERef mkAnd1(ERef a, ERef b); ERef mkOr1(ERef a, ERef b);
ERef mkConcat(ERef hi, ERef lo);
ERef mkExtract(ERef a, unsigned lo, unsigned w);
ERef mkZext(ERef a, unsigned w); ERef mkSext(ERef a, unsigned w);
ERef mkIte(ERef c, ERef a, ERef b);
ERef mkFUn(Kind k, ERef a, unsigned w, uint64_t val = 0);
ERef rebuild(ERef e, ERef a, ERef b, ERef c);
uint64_t evalOp(Kind k, unsigned w, uint64_t val, const Expr *const *ops, const uint64_t *v);
bool isSingle8(ERef e, uint32_t &var);
const uint64_t *table8(ERef e); // 256 entries; requires isSingle8

extern uint64_t gEvGen;
uint64_t evalExpr(ERef e, const std::vector<uint64_t> &model);
