#include "expr.h"
std::vector<VarInfo> gVars;
uint64_t gEvGen = 1;

static std::vector<VarSet*> gVarSets;
static std::map<std::vector<uint32_t>, VarSet*> gVSIntern;
static std::unordered_map<uint64_t, const VarSet*> gVSUnion;
static const VarSet *internVS(std::vector<uint32_t> v) {
  auto it = gVSIntern.find(v);
  if (it != gVSIntern.end()) return it->second;
  VarSet *s = new VarSet{v, (uint32_t)gVarSets.size()};
  gVarSets.push_back(s); gVSIntern[v] = s; return s;
}
static const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  uint64_t key = a->id < b->id ? ((uint64_t)a->id << 32 | b->id) : ((uint64_t)b->id << 32 | a->id);
  auto it = gVSUnion.find(key);
  if (it != gVSUnion.end()) return it->second;
  std::vector<uint32_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return gVSUnion[key] = internVS(r);
}
struct EH { size_t operator()(ERef e) const {
  uint64_t h = e->kind * 0x9E3779B97F4A7C15ull ^ e->width * 0xC2B2AE3D27D4EB4Full ^ e->val * 0x165667B19E3779F9ull;
  for (int i = 0; i < e->nops; i++) h = (h ^ e->op[i]->id) * 0xff51afd7ed558ccdull, h ^= h >> 29;
  return h; } };
struct EE { bool operator()(ERef a, ERef b) const {
  return a->kind == b->kind && a->width == b->width && a->val == b->val && a->nops == b->nops &&
    a->op[0] == b->op[0] && a->op[1] == b->op[1] && a->op[2] == b->op[2]; } };
#include <unordered_set>
static std::unordered_set<ERef, EH, EE> gTab;
static uint32_t gNextId = 1;
static ERef intern(Kind k, unsigned w, uint64_t val, ERef a = nullptr, ERef b = nullptr, ERef c = nullptr) {
  Expr t; memset(&t, 0, sizeof t); t.kind = k; t.width = w; t.val = val; t.op[0] = a; t.op[1] = b; t.op[2] = c;
  t.nops = c ? 3 : b ? 2 : a ? 1 : 0;
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  Expr *e = new Expr(t); e->id = gNextId++;
  const VarSet *vs = emptyVS();
  if (k == K_VAR) vs = internVS({(uint32_t)val});
  uint64_t sz = 1;
  for (int i = 0; i < e->nops; i++) { vs = unionVS(vs, e->op[i]->vars); sz += e->op[i]->size; }
  e->vars = vs; e->size = sz > 1000000 ? 1000000 : sz;
  gTab.insert(e); return e;
}
ERef mkConst(uint64_t v, unsigned w) { return intern(K_CONST, w, v & maskw(w)); }
ERef mkVar(const std::string &name, unsigned w, int kind) {
  static std::map<std::pair<std::string,unsigned>, ERef> m;
  auto &r = m[{name, w}];
  if (!r) { gVars.push_back({(uint16_t)w, kind, name}); r = intern(K_VAR, w, gVars.size() - 1); }
  return r;
}
static inline bool isC(ERef e) { return e->kind == K_CONST; }
static inline bool isC(ERef e, uint64_t v) { return e->kind == K_CONST && e->val == v; }

// ---- concrete semantics (x86-64) ----
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static uint64_t frD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t frF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t fp2si(double d, unsigned w) {
  if (w <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & maskw(w); return (uint64_t)(int64_t)(int32_t)d & maskw(w); }
  if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
  return (uint64_t)(int64_t)d;
}
static uint64_t fp2ui(double d, unsigned w) {
  if (w < 32) return fp2si(d, 32) & maskw(w);
  if (w == 32) return fp2si(d, 64) & maskw(32);
  if (d >= 9223372036854775808.0) { if (!(d < 18446744073709551616.0)) return fp2si(d - 9223372036854775808.0, 64) ^ 0x8000000000000000ull; return (uint64_t)d; }
  return fp2si(d, 64);
}
uint64_t evalOp(Kind k, unsigned w, uint64_t val, const Expr *const *ops, const uint64_t *v) {
  unsigned ow = ops[0] ? ops[0]->width : 0; uint64_t m = maskw(w);
  switch (k) {
  case K_ADD: return (v[0] + v[1]) & m; case K_SUB: return (v[0] - v[1]) & m; case K_MUL: return (v[0] * v[1]) & m;
  case K_UDIV: return v[1] ? v[0] / v[1] : m; case K_UREM: return v[1] ? v[0] % v[1] : v[0];
  case K_SDIV: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (b == 0) return (a < 0 ? 1 : m); if (b == -1) return (uint64_t)(0 - (uint64_t)a) & m; return (uint64_t)(a / b) & m; }
  case K_SREM: { int64_t a = sx(v[0], w), b = sx(v[1], w); if (b == 0) return v[0]; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
  case K_AND: return v[0] & v[1]; case K_OR: return v[0] | v[1]; case K_XOR: return v[0] ^ v[1];
  case K_SHL: return v[1] >= w ? 0 : (v[0] << v[1]) & m; case K_LSHR: return v[1] >= w ? 0 : v[0] >> v[1];
  case K_ASHR: return (uint64_t)(sx(v[0], w) >> (v[1] >= w ? w - 1 : v[1])) & m;
  case K_EQ: return v[0] == v[1]; case K_ULT: return v[0] < v[1]; case K_ULE: return v[0] <= v[1];
  case K_SLT: return sx(v[0], ow) < sx(v[1], ow); case K_SLE: return sx(v[0], ow) <= sx(v[1], ow);
  case K_CONCAT: return (v[0] << ops[1]->width) | v[1];
  case K_EXTRACT: return (v[0] >> val) & m; case K_ZEXT: return v[0]; case K_SEXT: return (uint64_t)sx(v[0], ow) & m;
  case K_ITE: return v[0] ? v[1] : v[2];
  case K_FADD: return w == 64 ? frD(asD(v[0]) + asD(v[1])) : frF(asF(v[0]) + asF(v[1]));
  case K_FSUB: return w == 64 ? frD(asD(v[0]) - asD(v[1])) : frF(asF(v[0]) - asF(v[1]));
  case K_FMUL: return w == 64 ? frD(asD(v[0]) * asD(v[1])) : frF(asF(v[0]) * asF(v[1]));
  case K_FDIV: return w == 64 ? frD(asD(v[0]) / asD(v[1])) : frF(asF(v[0]) / asF(v[1]));
  case K_FEQ: return ow == 64 ? asD(v[0]) == asD(v[1]) : asF(v[0]) == asF(v[1]);
  case K_FLT: return ow == 64 ? asD(v[0]) < asD(v[1]) : asF(v[0]) < asF(v[1]);
  case K_FLE: return ow == 64 ? asD(v[0]) <= asD(v[1]) : asF(v[0]) <= asF(v[1]);
  case K_FUNO: return ow == 64 ? (std::isnan(asD(v[0])) || std::isnan(asD(v[1]))) : (std::isnan(asF(v[0])) || std::isnan(asF(v[1])));
  case K_FPEXT: return frD((double)asF(v[0])); case K_FPTRUNC: return frF((float)asD(v[0]));
  case K_SITOFP: return w == 64 ? frD((double)sx(v[0], ow)) : frF((float)sx(v[0], ow));
  case K_UITOFP: return w == 64 ? frD((double)v[0]) : frF((float)v[0]);
  case K_FPTOSI: return fp2si(ow == 64 ? asD(v[0]) : (double)asF(v[0]), w);
  case K_FPTOUI: return fp2ui(ow == 64 ? asD(v[0]) : (double)asF(v[0]), w);
  case K_FSQRT: return w == 64 ? frD(std::sqrt(asD(v[0]))) : frF(std::sqrt(asF(v[0])));
  case K_FROUND: { double d = w == 64 ? asD(v[0]) : asF(v[0]); double r = val == 0 ? std::floor(d) : val == 1 ? std::ceil(d) : val == 2 ? std::trunc(d) : std::round(d);
      return w == 64 ? frD(r) : frF((float)r); }
  default: assert(0); return 0;
  }
}
static ERef fold(Kind k, unsigned w, uint64_t val, ERef a, ERef b = nullptr, ERef c = nullptr) {
  const Expr *ops[3] = {a, b, c}; uint64_t v[3] = {a ? a->val : 0, b ? b->val : 0, c ? c->val : 0};
  return mkConst(evalOp(k, w, val, ops, v), w);
}
ERef mkNot(ERef a) {
  if (isC(a)) return mkConst(!a->val, 1);
  if (a->kind == K_XOR && isC(a->op[1], 1)) return a->op[0];
  if (a->kind == K_ULT) return mkBin(K_ULE, a->op[1], a->op[0]);
  if (a->kind == K_ULE) return mkBin(K_ULT, a->op[1], a->op[0]);
  if (a->kind == K_SLT) return mkBin(K_SLE, a->op[1], a->op[0]);
  if (a->kind == K_SLE) return mkBin(K_SLT, a->op[1], a->op[0]);
  return intern(K_XOR, 1, 0, a, mkConst(1, 1));
}
ERef mkAnd1(ERef a, ERef b) { return mkBin(K_AND, a, b); }
ERef mkOr1(ERef a, ERef b) { return mkBin(K_OR, a, b); }

static bool bytesOf(ERef e, unsigned nb, ERef *out) { for (unsigned i = 0; i < nb; i++) out[i] = mkExtract(e, 8 * i, 8); return true; }
static ERef fromBytes(ERef *b, unsigned nb) { ERef r = b[0]; for (unsigned i = 1; i < nb; i++) r = mkConcat(b[i], r); return r; }
// true when e is structured so that byte extraction simplifies
static bool structured(ERef e) { return e->kind == K_CONST || e->kind == K_CONCAT || e->kind == K_ZEXT; }

ERef mkBin(Kind k, ERef a, ERef b) {
  unsigned w = a->width; unsigned rw = (k >= K_EQ && k <= K_SLE) || (k >= K_FEQ && k <= K_FUNO) ? 1 : w;
  if (isC(a) && isC(b)) return fold(k, rw, 0, a, b);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO;
  if (comm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
  switch (k) {
  case K_ADD:
    if (isC(b, 0)) return a;
    if (isC(b) && a->kind == K_ADD && isC(a->op[1])) return mkBin(K_ADD, a->op[0], fold(K_ADD, w, 0, a->op[1], b));
    if (w == 1) return mkBin(K_XOR, a, b);
    // pull constants outward so that base addresses stay visible
    if (!isC(b)) {
      if (b->kind == K_ADD && isC(b->op[1])) return mkBin(K_ADD, mkBin(K_ADD, a, b->op[0]), b->op[1]);
      if (a->kind == K_ADD && isC(a->op[1])) return mkBin(K_ADD, mkBin(K_ADD, a->op[0], b), a->op[1]);
    }
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->val, w));
    if (b->kind == K_ADD && b->op[0] == a) return mkBin(K_SUB, mkConst(0, w), b->op[1]);
    if (a->kind == K_ADD && a->op[0] == b) return a->op[1];
    if (a->kind == K_ADD && a->op[1] == b) return a->op[0];
    break;
  case K_MUL:
    if (isC(b, 0)) return b; if (isC(b, 1)) return a;
    if (isC(b) && (b->val & (b->val - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(b->val), w));
    break;
  case K_UDIV: if (isC(b, 1)) return a;
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->val), w));
    if (isC(b) && b->val && a->kind == K_UDIV && isC(a->op[1]) && a->op[1]->val) { unsigned __int128 d = (unsigned __int128)a->op[1]->val * b->val; return d > maskw(w) ? mkConst(0, w) : mkBin(K_UDIV, a->op[0], mkConst((uint64_t)d, w)); }
    if (isC(b) && b->val && a->kind == K_ZEXT) { unsigned ow = a->op[0]->width; return b->val > maskw(ow) ? mkConst(0, w) : mkZext(mkBin(K_UDIV, a->op[0], mkConst(b->val, ow)), w); }
    break;
  case K_UREM: if (isC(b, 1)) return mkConst(0, w);
    if (isC(b) && b->val && a->kind == K_ZEXT) { unsigned ow = a->op[0]->width; return b->val > maskw(ow) ? a : mkZext(mkBin(K_UREM, a->op[0], mkConst(b->val, ow)), w); }
 if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(K_AND, a, mkConst(b->val - 1, w)); break;
  case K_SDIV: if (isC(b, 1)) return a; break;
  case K_AND:
    if (a == b) return a;
    if (isC(b, 0)) return b; if (isC(b, maskw(w))) return a;
    if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); if (a->kind == K_AND && (a->op[0] == b || a->op[1] == b)) return a; if (b->kind == K_AND && (b->op[0] == a || b->op[1] == a)) return b; break; }
    if (isC(b)) {
      uint64_t m = b->val; // contiguous low mask
      if ((m & (m + 1)) == 0) { unsigned n = __builtin_popcountll(m); return mkZext(mkExtract(a, 0, n), w); }
      uint64_t inv = ~m & maskw(w);
      if ((inv & (inv + 1)) == 0) { unsigned n = __builtin_popcountll(inv); return mkConcat(mkExtract(a, n, w - n), mkConst(0, n)); }
      uint64_t lo = m & -m; uint64_t mm = m / lo; // contiguous mask in the middle
      if ((mm & (mm + 1)) == 0) { unsigned s = __builtin_ctzll(lo), n = __builtin_popcountll(m); return mkZext(mkConcat(mkExtract(a, s, n), mkConst(0, s)), w); }
      if (a->kind == K_AND && isC(a->op[1])) return mkBin(K_AND, a->op[0], mkConst(m & a->op[1]->val, w));
    }
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b, 0)) return a; if (isC(b, maskw(w))) return b;
    if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); if (a->kind == K_OR && (a->op[0] == b || a->op[1] == b)) return a; if (b->kind == K_OR && (b->op[0] == a || b->op[1] == a)) return b; break; }
    /* fallthrough */
  case K_XOR:
    if (k == K_XOR) { if (a == b) return mkConst(0, w); if (isC(b, 0)) return a; if (w == 1 && isC(b, 1)) return mkNot(a);
      if (isC(b) && a->kind == K_XOR && isC(a->op[1])) return mkBin(K_XOR, a->op[0], mkConst(b->val ^ a->op[1]->val, w)); if (w == 1) break; }
    if (w % 8 == 0 && (structured(a) && structured(b)) && !(isC(b) && k == K_XOR)) {
      ERef x[8], y[8]; unsigned nb = w / 8; bytesOf(a, nb, x); bytesOf(b, nb, y); bool ok = true;
      for (unsigned i = 0; i < nb; i++) { if (isC(x[i], 0)) x[i] = y[i]; else if (isC(y[i], 0)) ; else if (isC(x[i]) && isC(y[i])) x[i] = fold(k, 8, 0, x[i], y[i]); else ok = false; }
      if (ok) return fromBytes(x, nb);
    }
    break;
  case K_SHL:
    if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val)); } break;
  case K_LSHR:
    if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); return mkZext(mkExtract(a, b->val, w - b->val), w); } break;
  case K_ASHR:
    if (isC(b)) { uint64_t s = b->val >= w ? w - 1 : b->val; if (s == 0) return a; return mkSext(mkExtract(a, s, w - s), w); } break;
  case K_EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1) { if (isC(b)) return b->val ? a : mkNot(a); return mkNot(mkBin(K_XOR, a, b)); }
    if (isC(b)) {
      uint64_t c = b->val;
      if (c == 0 && a->kind == K_UDIV && isC(a->op[1]) && a->op[1]->val) return mkBin(K_ULT, a->op[0], a->op[1]);
      if (a->kind == K_ZEXT) { unsigned ow = a->op[0]->width; if (c & ~maskw(ow)) return mkConst(0, 1); return mkBin(K_EQ, a->op[0], mkConst(c, ow)); }
      if (a->kind == K_SEXT) { unsigned ow = a->op[0]->width; if (((uint64_t)sx(c & maskw(ow), ow) & maskw(w)) != c) return mkConst(0, 1); return mkBin(K_EQ, a->op[0], mkConst(c, ow)); }
      if (a->kind == K_CONCAT) { unsigned lw = a->op[1]->width; return mkAnd1(mkBin(K_EQ, a->op[0], mkConst(c >> lw, a->op[0]->width)), mkBin(K_EQ, a->op[1], mkConst(c, lw))); }
      if (a->kind == K_ADD && isC(a->op[1])) return mkBin(K_EQ, a->op[0], mkConst(c - a->op[1]->val, w));
      if (a->kind == K_XOR && isC(a->op[1])) return mkBin(K_EQ, a->op[0], mkConst(c ^ a->op[1]->val, w));
      if (a->kind == K_SUB && isC(a->op[0])) return mkBin(K_EQ, a->op[1], mkConst(a->op[0]->val - c, w));
      if (a->kind == K_ITE && (isC(a->op[1]) || isC(a->op[2]))) {
        ERef x = mkBin(K_EQ, a->op[1], b), y = mkBin(K_EQ, a->op[2], b);
        return mkIte(a->op[0], x, y);
      }
    } else {
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->op[0]->width == b->op[0]->width) return mkBin(K_EQ, a->op[0], b->op[0]);
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->op[0]->width == b->op[0]->width) return mkBin(K_EQ, a->op[0], b->op[0]);
      if (a->kind == K_ADD && b->kind == K_ADD && isC(a->op[1]) && isC(b->op[1]) && a->op[0] == b->op[0]) return mkConst(a->op[1] == b->op[1], 1);
    }
    break;
  case K_ULT:
    if (a == b || isC(b, 0)) return mkConst(0, 1);
    if (isC(b, 1)) return mkBin(K_EQ, a, mkConst(0, w));
    if (isC(a, maskw(w))) return mkConst(0, 1);
    if (a->kind == K_UDIV && isC(a->op[1]) && a->op[1]->val && isC(b)) { unsigned __int128 d = (unsigned __int128)a->op[1]->val * b->val; return d > maskw(w) ? mkConst(1, 1) : mkBin(K_ULT, a->op[0], mkConst((uint64_t)d, w)); }
    if (b->kind == K_UDIV && isC(b->op[1]) && b->op[1]->val && isC(a)) { unsigned __int128 d = ((unsigned __int128)a->val + 1) * b->op[1]->val; return d > maskw(w) ? mkConst(0, 1) : mkBin(K_ULE, mkConst((uint64_t)d, w), b->op[0]); }
    if (a->kind == K_ZEXT && isC(b)) { unsigned ow = a->op[0]->width; if (b->val > maskw(ow)) return mkConst(1, 1); return mkBin(K_ULT, a->op[0], mkConst(b->val, ow)); }
    if (b->kind == K_ZEXT && isC(a)) { unsigned ow = b->op[0]->width; if (a->val >= maskw(ow)) return mkConst(0, 1); return mkBin(K_ULT, mkConst(a->val, ow), b->op[0]); }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->op[0]->width == b->op[0]->width) return mkBin(K_ULT, a->op[0], b->op[0]);
    break;
  case K_ULE:
    if (a == b || isC(a, 0) || isC(b, maskw(w))) return mkConst(1, 1);
    if (isC(b, 0)) return mkBin(K_EQ, a, b);
    if (a->kind == K_UDIV && isC(a->op[1]) && a->op[1]->val && isC(b)) { unsigned __int128 d = ((unsigned __int128)b->val + 1) * a->op[1]->val; return d > maskw(w) ? mkConst(1, 1) : mkBin(K_ULT, a->op[0], mkConst((uint64_t)d, w)); }
    if (b->kind == K_UDIV && isC(b->op[1]) && b->op[1]->val && isC(a)) { unsigned __int128 d = (unsigned __int128)a->val * b->op[1]->val; return d > maskw(w) ? mkConst(0, 1) : mkBin(K_ULE, mkConst((uint64_t)d, w), b->op[0]); }
    if (a->kind == K_ZEXT && isC(b)) { unsigned ow = a->op[0]->width; if (b->val >= maskw(ow)) return mkConst(1, 1); return mkBin(K_ULE, a->op[0], mkConst(b->val, ow)); }
    if (b->kind == K_ZEXT && isC(a)) { unsigned ow = b->op[0]->width; if (a->val > maskw(ow)) return mkConst(0, 1); return mkBin(K_ULE, mkConst(a->val, ow), b->op[0]); }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->op[0]->width == b->op[0]->width) return mkBin(K_ULE, a->op[0], b->op[0]);
    break;
  case K_SLT: case K_SLE:
    if (a == b) return mkConst(k == K_SLE, 1);
    // zero-extended operands are non-negative
    if (a->kind == K_ZEXT && isC(b)) { if (sx(b->val, w) < 0) return mkConst(0, 1); return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b); }
    if (b->kind == K_ZEXT && isC(a)) { if (sx(a->val, w) < 0) return mkConst(1, 1); return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b); }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (a->kind == K_SEXT && isC(b)) { unsigned ow = a->op[0]->width; int64_t c = sx(b->val, w); int64_t mx = (int64_t)(maskw(ow) >> 1), mn = -mx - 1;
      if (c > mx) return mkConst(1, 1); if (c < mn) return mkConst(0, 1); return mkBin(k, a->op[0], mkConst((uint64_t)c, ow)); }
    if (b->kind == K_SEXT && isC(a)) { unsigned ow = b->op[0]->width; int64_t c = sx(a->val, w); int64_t mx = (int64_t)(maskw(ow) >> 1), mn = -mx - 1;
      if (c > mx) return mkConst(0, 1); if (c < mn) return mkConst(1, 1); return mkBin(k, mkConst((uint64_t)c, ow), b->op[0]); }
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->op[0]->width == b->op[0]->width) return mkBin(k, a->op[0], b->op[0]);
    break;
  case K_FUNO:
    if (isC(b) && !(w == 64 ? std::isnan(asD(b->val)) : std::isnan(asF(b->val))) && a != b && !isC(a)) return mkBin(K_FUNO, a, a);
    if (a->kind == K_SITOFP || a->kind == K_UITOFP) { if (a == b) return mkConst(0, 1); if (b->kind == K_SITOFP || b->kind == K_UITOFP) return mkConst(0, 1); }
    break;
  default: break;
  }
  return intern(k, rw, 0, a, b);
}
ERef mkExtract(ERef a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  switch (a->kind) {
  case K_EXTRACT: return mkExtract(a->op[0], lo + a->val, w);
  case K_CONCAT: { unsigned lw = a->op[1]->width;
    if (lo >= lw) return mkExtract(a->op[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->op[1], lo, w);
    return mkConcat(mkExtract(a->op[0], 0, lo + w - lw), mkExtract(a->op[1], lo, lw - lo)); }
  case K_ZEXT: { unsigned ow = a->op[0]->width;
    if (lo >= ow) return mkConst(0, w);
    if (lo + w <= ow) return mkExtract(a->op[0], lo, w);
    return mkZext(mkExtract(a->op[0], lo, ow - lo), w); }
  case K_SEXT: { unsigned ow = a->op[0]->width;
    if (lo + w <= ow) return mkExtract(a->op[0], lo, w);
    if (lo < ow) return mkSext(mkExtract(a->op[0], lo, ow - lo), w);
    return mkSext(mkExtract(a->op[0], ow - 1, 1), w); }
  case K_ITE: if (isC(a->op[1]) || isC(a->op[2]) ) return mkIte(a->op[0], mkExtract(a->op[1], lo, w), mkExtract(a->op[2], lo, w)); break;
  case K_AND: case K_OR: case K_XOR: return mkBin(a->kind, mkExtract(a->op[0], lo, w), mkExtract(a->op[1], lo, w));
  case K_ADD: case K_SUB: case K_MUL: if (lo == 0 && isC(a->op[1])) return mkBin(a->kind, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w)); break;
  default: break;
  }
  return intern(K_EXTRACT, w, lo, a);
}
ERef mkConcat(ERef hi, ERef lo) {
  unsigned w = hi->width + lo->width;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
  if (isC(hi, 0)) return mkZext(lo, w);
  // merge adjacent extracts
  auto part = [](ERef e, ERef &b, unsigned &l) { if (e->kind == K_EXTRACT) { b = e->op[0]; l = e->val; } else { b = e; l = 0; } };
  ERef hb, lb; unsigned hl, ll;
  part(hi, hb, hl);
  ERef l2 = lo, rest = nullptr;
  if (lo->kind == K_CONCAT) { l2 = lo->op[0]; rest = lo->op[1]; }
  part(l2, lb, ll);
  if (hi->kind == K_EXTRACT && hb == lb && hl == ll + l2->width) {
    ERef m = mkExtract(hb, ll, hi->width + l2->width);
    return rest ? mkConcat(m, rest) : m;
  }
  if (isC(hi) && isC(l2) && rest) return mkConcat(mkConst((hi->val << l2->width) | l2->val, hi->width + l2->width), rest);
  if (hi->kind == K_CONCAT) return mkConcat(hi->op[0], mkConcat(hi->op[1], lo)); // right-associate
  if (hi->kind == K_ZEXT) { return mkZext(mkConcat(hi->op[0], lo), w); }
  // sext pattern: concat(sext(bit), x) is left alone
  return intern(K_CONCAT, w, 0, hi, lo);
}
ERef mkZext(ERef a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkConst(a->val, w);
  if (a->kind == K_ZEXT) return mkZext(a->op[0], w);
  return intern(K_ZEXT, w, 0, a);
}
ERef mkSext(ERef a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->val, a->width), w);
  if (a->kind == K_SEXT) return mkSext(a->op[0], w);
  if (a->kind == K_ZEXT) return mkZext(a->op[0], w);
  return intern(K_SEXT, w, 0, a);
}
ERef mkIte(ERef c, ERef a, ERef b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->width == 1) {
    if (isC(a)) return a->val ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (c->kind == K_XOR && isC(c->op[1], 1)) return mkIte(c->op[0], b, a);
  if (b->kind == K_ITE && b->op[0] == c) return mkIte(c, a, b->op[2]);
  if (a->kind == K_ITE && a->op[0] == c) return mkIte(c, a->op[1], b);
  return intern(K_ITE, a->width, 0, c, a, b);
}
ERef mkFUn(Kind k, ERef a, unsigned w, uint64_t val) {
  if (isC(a)) return fold(k, w, val, a);
  if (k == K_FPTRUNC && a->kind == K_FPEXT) { /* trunc(ext(x)) == x except for NaN payload quieting */ return a->op[0]; }
  if (k == K_FPTOSI && a->kind == K_SITOFP && w >= a->op[0]->width && (a->width == 64 ? a->op[0]->width <= 32 : a->op[0]->width <= 16)) return mkSext(a->op[0], w);
  if (k == K_FPTOSI && a->kind == K_UITOFP && w > a->op[0]->width && (a->width == 64 ? a->op[0]->width <= 32 : a->op[0]->width <= 16)) return mkZext(a->op[0], w);
  if (k == K_SITOFP && a->kind == K_ZEXT) return mkFUn(K_UITOFP, a->op[0], w);
  if (k == K_SITOFP && a->kind == K_SEXT) return mkFUn(K_SITOFP, a->op[0], w);
  if (k == K_UITOFP && a->kind == K_ZEXT) return mkFUn(K_UITOFP, a->op[0], w);
  return intern(k, w, val, a);
}
ERef rebuild(ERef e, ERef a, ERef b, ERef c) {
  switch (e->kind) {
  case K_CONST: case K_VAR: return e;
  case K_CONCAT: return mkConcat(a, b);
  case K_EXTRACT: return mkExtract(a, e->val, e->width);
  case K_ZEXT: return mkZext(a, e->width); case K_SEXT: return mkSext(a, e->width);
  case K_ITE: return mkIte(a, b, c);
  case K_FPEXT: case K_FPTRUNC: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: case K_FSQRT: case K_FROUND: return mkFUn(e->kind, a, e->width, e->val);
  default: return mkBin(e->kind, a, b);
  }
}
static uint64_t evalRec(ERef e, const std::vector<uint64_t> &m) {
  if (e->kind == K_CONST) return e->val;
  if (e->evGen == gEvGen) return e->evVal;
  uint64_t r;
  if (e->kind == K_VAR) r = e->val < m.size() ? m[e->val] & maskw(e->width) : 0;
  else if (e->kind == K_ITE) r = evalRec(e->op[0], m) ? evalRec(e->op[1], m) : evalRec(e->op[2], m);
  else { uint64_t v[3]; for (int i = 0; i < e->nops; i++) v[i] = evalRec(e->op[i], m); r = evalOp(e->kind, e->width, e->val, e->op, v); }
  e->evGen = gEvGen; e->evVal = r; return r;
}
uint64_t evalExpr(ERef e, const std::vector<uint64_t> &model) { if (e->kind == K_CONST) return e->val; gEvGen++; return evalRec(e, model); }
bool isSingle8(ERef e, uint32_t &var) {
  if (e->vars->v.size() != 1) return false;
  var = e->vars->v[0]; return gVars[var].width == 8;
}
const uint64_t *table8(ERef e) {
  if (e->tab) return e->tab;
  uint64_t *t = new uint64_t[256]; std::vector<uint64_t> m(e->vars->v[0] + 1, 0);
  for (int i = 0; i < 256; i++) { m[e->vars->v[0]] = i; t[i] = evalExpr(e, m); }
  e->tab = t; return t;
}
