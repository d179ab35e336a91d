#include "solver.h"
#include <chrono>
#include <cstdio>
Stats gStats; unsigned gZ3TimeoutMs = 20000;
static Z3_context ctx; static Z3_solver sInc, sBV;
static std::unordered_map<ERef, Z3_ast> tmap;
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void initZ3() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, z3err);
  sInc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sInc);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1))); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast tr(ERef e);
static Z3_ast tof(ERef e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fps(e->width)); }
static Z3_ast fob(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }
static Z3_ast fval(double d, Z3_sort s) { return Z3_mk_fpa_numeral_double(ctx, d, s); }
static Z3_ast toInt(ERef e, unsigned w) { // x86 semantics of a conversion to signed w-bit
  Z3_ast f = tof(e->op[0]); Z3_sort fs = fps(e->op[0]->width);
  unsigned cw = w <= 32 ? 32 : 64; double hi = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
  Z3_ast ok[2]; ok[1] = Z3_mk_fpa_lt(ctx, f, fval(hi, fs));
  if (cw == 32 && e->op[0]->width == 64) ok[0] = Z3_mk_fpa_gt(ctx, f, fval(-2147483649.0, fs)); else ok[0] = Z3_mk_fpa_geq(ctx, f, fval(-hi, fs));
  Z3_ast r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, ok), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), f, cw), Z3_mk_unsigned_int64(ctx, cw == 32 ? 0x80000000ull : 0x8000000000000000ull, bvs(cw)));
  return cw == w ? r : Z3_mk_extract(ctx, w - 1, 0, r);
}
static Z3_ast tr(ERef e) {
  auto it = tmap.find(e); if (it != tmap.end()) return it->second;
  Z3_ast r = nullptr; unsigned w = e->width;
#define A tr(e->op[0])
#define B tr(e->op[1])
  switch (e->kind) {
  case K_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, bvs(w)); break;
  case K_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (gVars[e->val].name + "_" + std::to_string(w)).c_str()), bvs(w)); break;
  case K_ADD: r = Z3_mk_bvadd(ctx, A, B); break; case K_SUB: r = Z3_mk_bvsub(ctx, A, B); break; case K_MUL: r = Z3_mk_bvmul(ctx, A, B); break;
  case K_UDIV: r = Z3_mk_bvudiv(ctx, A, B); break; case K_SDIV: r = Z3_mk_bvsdiv(ctx, A, B); break;
  case K_UREM: r = Z3_mk_bvurem(ctx, A, B); break; case K_SREM: r = Z3_mk_bvsrem(ctx, A, B); break;
  case K_AND: r = Z3_mk_bvand(ctx, A, B); break; case K_OR: r = Z3_mk_bvor(ctx, A, B); break; case K_XOR: r = Z3_mk_bvxor(ctx, A, B); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, A, B); break; case K_LSHR: r = Z3_mk_bvlshr(ctx, A, B); break; case K_ASHR: r = Z3_mk_bvashr(ctx, A, B); break;
  case K_EQ: r = b2v(Z3_mk_eq(ctx, A, B)); break; case K_ULT: r = b2v(Z3_mk_bvult(ctx, A, B)); break; case K_ULE: r = b2v(Z3_mk_bvule(ctx, A, B)); break;
  case K_SLT: r = b2v(Z3_mk_bvslt(ctx, A, B)); break; case K_SLE: r = b2v(Z3_mk_bvsle(ctx, A, B)); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, A, B); break; case K_EXTRACT: r = Z3_mk_extract(ctx, e->val + w - 1, e->val, A); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->op[0]->width, A); break; case K_SEXT: r = Z3_mk_sign_ext(ctx, w - e->op[0]->width, A); break;
  case K_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, A, Z3_mk_unsigned_int64(ctx, 1, bvs(1))), B, tr(e->op[2])); break;
  case K_FADD: r = fob(Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]), tof(e->op[1]))); break;
  case K_FSUB: r = fob(Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]), tof(e->op[1]))); break;
  case K_FMUL: r = fob(Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]), tof(e->op[1]))); break;
  case K_FDIV: r = fob(Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]), tof(e->op[1]))); break;
  case K_FEQ: r = b2v(Z3_mk_fpa_eq(ctx, tof(e->op[0]), tof(e->op[1]))); break;
  case K_FLT: r = b2v(Z3_mk_fpa_lt(ctx, tof(e->op[0]), tof(e->op[1]))); break;
  case K_FLE: r = b2v(Z3_mk_fpa_leq(ctx, tof(e->op[0]), tof(e->op[1]))); break;
  case K_FUNO: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, tof(e->op[0])), Z3_mk_fpa_is_nan(ctx, tof(e->op[1]))}; r = b2v(Z3_mk_or(ctx, 2, o)); break; }
  case K_FPEXT: r = fob(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]), fps(64))); break;
  case K_FPTRUNC: r = fob(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]), fps(32))); break;
  case K_SITOFP: r = fob(Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), A, fps(w))); break;
  case K_UITOFP: r = fob(Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), A, fps(w))); break;
  case K_FPTOSI: r = toInt(e, w); break;
  case K_FPTOUI:
    if (w < 32) { r = Z3_mk_extract(ctx, w - 1, 0, toInt(e, 32)); }
    else if (w == 32) r = Z3_mk_extract(ctx, 31, 0, toInt(e, 64));
    else { Z3_ast f = tof(e->op[0]); Z3_sort fs = fps(e->op[0]->width);
      Z3_ast hi[2] = {Z3_mk_fpa_geq(ctx, f, fval(9223372036854775808.0, fs)), Z3_mk_fpa_lt(ctx, f, fval(18446744073709551616.0, fs))};
      r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, hi), Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), f, 64), Z3_mk_ite(ctx, hi[0], Z3_mk_unsigned_int64(ctx, 0, bvs(64)), toInt(e, 64))); }
    break;
  case K_FSQRT: r = fob(Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), tof(e->op[0]))); break;
  case K_FROUND: r = fob(Z3_mk_fpa_round_to_integral(ctx, e->val == 0 ? Z3_mk_fpa_rtn(ctx) : e->val == 1 ? Z3_mk_fpa_rtp(ctx) : e->val == 2 ? Z3_mk_fpa_rtz(ctx) : Z3_mk_fpa_rna(ctx), tof(e->op[0]))); break;
  }
  keep(r); tmap[e] = r; return r;
}
bool domTest(const CState &c, uint32_t v, unsigned val) {
  if (v >= c.domSet.size() || !c.domSet[v]) return true;
  return (c.dom[v][val >> 6] >> (val & 63)) & 1;
}
static void growTo(CState &c, uint32_t v) { if (v >= c.domSet.size()) { c.domSet.resize(v + 1, 0); c.linked.resize(v + 1, 0); c.dom.resize(v + 1, Dom8{~0ull, ~0ull, ~0ull, ~0ull}); } }

static ERef substRec(CState &c, ERef e, std::unordered_map<ERef,ERef> &memo) {
  if (e->kind == K_CONST) return e;
  auto k = c.eqs.find(e); if (k != c.eqs.end()) return k->second;
  if (e->kind == K_VAR) return e;
  bool hit = false;
  for (uint32_t v : e->vars->v) if (std::binary_search(c.eqVars.begin(), c.eqVars.end(), v)) { hit = true; break; }
  if (!hit) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  ERef o[3] = {e->op[0], e->op[1], e->op[2]}; bool ch = false;
  for (int i = 0; i < e->nops; i++) { o[i] = substRec(c, e->op[i], memo); ch |= o[i] != e->op[i]; }
  ERef r = ch ? rebuild(e, o[0], o[1], o[2]) : e;
  memo[e] = r; return r;
}
ERef substKnown(CState &c, ERef e) {
  if (e->kind == K_CONST || c.eqs.empty()) return e;
  std::unordered_map<ERef,ERef> memo; return substRec(c, e, memo);
}
struct QKey { std::vector<uint64_t> k; bool operator==(const QKey &o) const { return k == o.k; } };
struct QH { size_t operator()(const QKey &q) const { uint64_t h = 0x1234; for (auto x : q.k) { h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 31; } return h; } };
struct QRes { Res r; std::vector<std::pair<uint32_t,uint64_t>> m; };
static std::unordered_map<QKey, QRes, QH> qcache;

Res mayBeTrue(CState &c, ERef e0, std::vector<uint64_t> &m) {
  ERef e = substKnown(c, e0);
  if (e->kind == K_CONST) { if (e->val) { m = c.model; return R_SAT; } return R_UNSAT; }
  if (c.known.count(e)) { gStats.knownDecided++; m = c.model; return R_SAT; }
  if (c.known.count(mkNot(e))) { gStats.knownDecided++; return R_UNSAT; }
  uint32_t var;
  if (isSingle8(e, var)) {
    const uint64_t *t = table8(e); int pick = -1, cnt = 0;
    uint64_t mv = var < c.model.size() ? c.model[var] : 0;
    if (t[mv & 255]) { gStats.modelDecided++; m = c.model; return R_SAT; }
    for (int i = 0; i < 256; i++) if (t[i] && domTest(c, var, i)) { if (pick < 0) pick = i; cnt++; }
    if (pick < 0) { gStats.domainDecided++; return R_UNSAT; }
    if (var >= c.linked.size() || !c.linked[var]) { gStats.domainDecided++; m = c.model; if (m.size() <= var) m.resize(var + 1, 0); m[var] = pick; return R_SAT; }
  } else if (evalExpr(e, c.model)) { gStats.modelDecided++; m = c.model; return R_SAT; }
  // independent slice
  std::vector<ERef> sl; std::vector<uint8_t> used(c.multi.size(), 0);
  std::vector<uint8_t> vin(gVars.size(), 0); std::vector<uint32_t> vars;
  for (auto v : e->vars->v) { vin[v] = 1; vars.push_back(v); }
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < c.multi.size(); i++) if (!used[i]) { bool hit = false; for (auto v : c.multi[i]->vars->v) if (vin[v]) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; sl.push_back(c.multi[i]); for (auto v : c.multi[i]->vars->v) if (!vin[v]) { vin[v] = 1; vars.push_back(v); } } } }
  QKey key; { std::vector<uint64_t> ids; for (auto x : sl) ids.push_back(x->id); std::sort(ids.begin(), ids.end()); key.k = ids; key.k.push_back(~0ull); key.k.push_back(e->id);
    std::sort(vars.begin(), vars.end()); for (auto v : vars) if (v < c.domSet.size() && c.domSet[v]) { key.k.push_back(v | 1ull << 40); for (auto d : c.dom[v]) key.k.push_back(d); } }
  auto it = qcache.find(key);
  if (it != qcache.end()) { gStats.cacheHits++; if (it->second.r == R_SAT) { m = c.model; for (auto &p : it->second.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } } return it->second.r; }
  initZ3();
  auto t0 = std::chrono::steady_clock::now();
  std::vector<Z3_ast> as;
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, bvs(1)); Z3_inc_ref(ctx, one);
  auto asB = [&](ERef x) { Z3_ast a = Z3_mk_eq(ctx, tr(x), one); Z3_inc_ref(ctx, a); as.push_back(a); };
  for (auto x : sl) asB(x);
  asB(e);
  for (auto v : vars) if (v < c.domSet.size() && c.domSet[v]) {
    ERef x = mkVar(gVars[v].name, 8, gVars[v].kind); ERef d = mkConst(0, 1); int i = 0;
    while (i < 256) { if (!domTest(c, v, i)) { i++; continue; } int j = i; while (j + 1 < 256 && domTest(c, v, j + 1)) j++;
      d = mkOr1(d, mkAnd1(mkBin(K_ULE, mkConst(i, 8), x), mkBin(K_ULE, x, mkConst(j, 8)))); i = j + 1; }
    if (d->kind != K_CONST) asB(d);
  }
  Res res = R_UNKNOWN; QRes qr;
  for (int attempt = 0; attempt < 2 && res == R_UNKNOWN; attempt++) {
    Z3_solver s;
    if (attempt == 0) { s = sInc; Z3_solver_push(ctx, s); }
    else { Z3_tactic t1 = Z3_mk_tactic(ctx, "qffpbv"); Z3_tactic_inc_ref(ctx, t1); s = Z3_mk_solver_from_tactic(ctx, t1); Z3_solver_inc_ref(ctx, s); Z3_tactic_dec_ref(ctx, t1); }
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), attempt == 0 ? 1500 : gZ3TimeoutMs); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (auto a : as) Z3_solver_assert(ctx, s, a);
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) res = R_UNSAT;
    else if (r == Z3_L_TRUE) { res = R_SAT;
      Z3_model md = Z3_solver_get_model(ctx, s);
      if (md) { Z3_model_inc_ref(ctx, md);
        for (auto v : vars) { ERef x = mkVar(gVars[v].name, gVars[v].width, gVars[v].kind); Z3_ast val; uint64_t u = 0;
          if (Z3_model_eval(ctx, md, tr(x), true, &val)) Z3_get_numeral_uint64(ctx, val, &u);
          qr.m.push_back({v, u}); }
        Z3_model_dec_ref(ctx, md); } }
    if (attempt == 0) Z3_solver_pop(ctx, s, 1); else Z3_solver_dec_ref(ctx, s);
  }
  for (auto a : as) Z3_dec_ref(ctx, a); Z3_dec_ref(ctx, one);
  gStats.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gStats.z3queries++;
  if (res == R_SAT) {
    m = c.model; for (auto &p : qr.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    bool ok = evalExpr(e, m); for (auto x : sl) ok = ok && evalExpr(x, m);
    for (auto v : vars) if (gVars[v].width == 8) ok = ok && domTest(c, v, m[v]);
    if (!ok) { gStats.modelMismatch++; res = R_UNKNOWN; } // NaN payload or similar: not usable as a witness
  }
  if (res == R_SAT) gStats.z3sat++; else if (res == R_UNSAT) gStats.z3unsat++; else gStats.z3unknown++;
  qr.r = res; qcache[key] = qr;
  return res;
}
static void addOne(CState &c, ERef e) {
  if (e->kind == K_CONST) return;
  if (e->kind == K_AND) { addOne(c, e->op[0]); addOne(c, e->op[1]); return; }
  uint32_t var;
  if (isSingle8(e, var)) {
    growTo(c, var); const uint64_t *t = table8(e); c.domSet[var] = 1; int cnt = 0, last = 0;
    for (int i = 0; i < 256; i++) { if (!t[i]) c.dom[var][i >> 6] &= ~(1ull << (i & 63)); if (domTest(c, var, i)) { cnt++; last = i; } }
    if (cnt == 1) { ERef x = mkVar(gVars[var].name, 8, gVars[var].kind); c.eqs[x] = mkConst(last, 8);
      auto p = std::lower_bound(c.eqVars.begin(), c.eqVars.end(), var); if (p == c.eqVars.end() || *p != var) c.eqVars.insert(p, var); }
    return;
  }
  if (c.known.insert(e).second) {
    c.multi.push_back(e);
    for (auto v : e->vars->v) { growTo(c, v); c.linked[v] = 1; }
    if (e->kind == K_EQ && e->op[1]->kind == K_CONST) { c.eqs[e->op[0]] = e->op[1];
      for (auto v : e->vars->v) { auto p = std::lower_bound(c.eqVars.begin(), c.eqVars.end(), v); if (p == c.eqVars.end() || *p != v) c.eqVars.insert(p, v); } }
  }
}
void addTrue(CState &c, ERef e, const std::vector<uint64_t> &m) { c.model = m; e = substKnown(c, e); addOne(c, e); }
