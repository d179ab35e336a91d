#include "expr.h"
/* E01 */
void h_arith(void){
  static const char *ops = "+-*/"; int o = in_pick(0, 3), form = in_pick(0, 1); char text[32]; if(form) sprintf(text, "/r = /a %c /b", ops[o]); else sprintf(text, "/r = %s(/a, /b)", o == 0 ? "add" : o == 1 ? "sub" : o == 2 ? "mul" : "div");
  B.n = 2; mnum(&B.m[0], "/a", in_pick(1, NA), TYPES); mnum(&B.m[1], "/b", in_pick(1, NA), TYPES); setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; int r = ev(text, &L, &P, &out); CHECK(r == 0, "evaluates");
  int na = B.m[0].n, nb = B.m[1].n, n = na == 1 ? nb : nb == 1 ? na : na < nb ? na : nb; g_arg e[4];
  for(int i = 0; i < n; i++){ arith(ops[o], &B.m[0].a[na == 1 ? 0 : i], &B.m[1].a[nb == 1 ? 0 : i], &e[i]); if(dz){ e[i].tt = 's'; e[i].len = 3; strcpy((char *)e[i].b, "Inf"); } }
  expect("/r", out, n, e); osc_atom_array_u_free(out); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* ++, --, compound assignment, unary minus */
void h_incr(void){
  static const char *txt[] = { "++/a", "--/a", "/a++", "/a--", "/a += /b", "/a -= /b", "/a *= /b", "/a /= /b", "/r = -/a" }; int k = in_pick(0, 8);
  B.n = 2; mnum(&B.m[0], "/a", in_pick(1, NA), TYPES); mnum(&B.m[1], "/b", in_pick(1, NA), TYPES); setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; int r = ev(txt[k], &L, &P, &out); CHECK(r == 0, "evaluates");
  int na = B.m[0].n, nb = B.m[1].n, n = k < 4 || k == 8 ? na : na == 1 ? nb : nb == 1 ? na : na < nb ? na : nb; g_arg e[4], o[4];
  for(int i = 0; i < n; i++){ g_arg *a = &B.m[0].a[na == 1 ? 0 : i], *b = &B.m[1].a[nb == 1 ? 0 : i]; g_arg c = *a; o[i] = c; int d = k & 1 ? -1 : 1;
    if(k == 8){ g_arg z = { 'i', 0 }; arith('-', &z, a, &c); }
    else if(k >= 4){ arith("+-*/"[k - 4], a, b, &c); if(dz){ c.tt = 's'; c.len = 3; strcpy((char *)c.b, "Inf"); } }
    else switch(c.tt){ case 'f': c.bits = f2u(u2f((uint32_t)a->bits) + d); break; case 'd': c.bits = d2u(u2d(a->bits) + d); break; case 'c': case 'C': c.bits = (uint8_t)(a->bits + d); break; case 'u': case 'U': c.bits = (uint16_t)(a->bits + d); break; case 'i': case 'I': c.bits = (uint32_t)(a->bits + d); break; default: c.bits = a->bits + d; }
    e[i] = c; }
  if(k == 2 || k == 3){ CHECK(out && osc_atom_array_u_getLen(out) == n, "length of the value"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(out, i), &o[i]), "a postfix operator gives the old value"); osc_atom_array_u_free(out); out = osc_atom_array_u_alloc(n); for(int i = 0; i < n; i++) g_set(osc_atom_array_u_get(out, i), &e[i]); }
  expect(k == 8 ? "/r" : "/a", out, n, e); osc_atom_array_u_free(out); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* + joins texts, and a text and a number, in order */
static const int TN[] = { 0, 7, -12, 127 };
void h_add_text(void){
  int k = in_pick(0, 2), form = in_pick(0, 2), c = in_pick(0, 3), ty = in_pick(0, 2); B.n = 2; mnum(&B.m[0], "/a", 1, k == 2 ? "i" : "s"); mnum(&B.m[1], "/b", 1, k == 1 ? "i" : "s"); g_arg *q = k == 2 ? &B.m[0].a[0] : k == 1 ? &B.m[1].a[0] : NULL; if(q){ q->tt = "ihu"[ty]; q->bits = (uint64_t)(int64_t)TN[c]; if(q->tt == 'i') q->bits = (uint32_t)q->bits; else if(q->tt == 'u') q->bits = (uint16_t)q->bits; } else ASSUME(!c & !ty);
  setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; static const char *t[] = { "/r = /a + /b", "/r = add(/a, /b)", "/a += /b" }; CHECK(!ev(t[form], &L, &P, &out), "evaluates");
  g_arg e; memset(&e, 0, sizeof e); e.tt = 's'; int l = 0; for(int i = 0; i < 2; i++){ const g_arg *a = &B.m[i].a[0]; if(a->tt == 's') for(int j = 0; j < a->len; j++) e.b[l++] = a->b[j]; else l += sprintf((char *)e.b + l, "%d", TN[c]); } e.b[l] = 0; e.len = l;
  expect(form == 2 ? "/a" : "/r", out, 1, &e); osc_atom_array_u_free(out); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* timetags and numbers of seconds; the bits of a timetag are its seconds, then the fraction */
static const uint64_t TT_[] = { 0x100000000ull, 0x0000006480000000ull, 0xE5E5E5E5FFFFFFFFull, 0x83AA7E8000000001ull, 0x0100000140000000ull }; static const double TS[] = { 0, 1, 0.5, 99.75, 0.1, 16777217, 16777216.3, 100.4 };
void h_add_time(void){
  int k = in_pick(0, 3), i = in_pick(0, 4), j = in_pick(0, 7), ty = in_pick(0, 1), x = in_pick(0, 4); B.n = 2; g_arg t, d, *a, *b; memset(&t, 0, sizeof t); memset(&d, 0, sizeof d); t.tt = 't'; t.bits = TT_[i]; double s = TS[j]; int whole = s == (int)s; ASSUME(!ty | whole); d.tt = ty ? 'i' : 'd'; d.bits = ty ? (uint64_t)(int)s : d2u(s); uint64_t w = (uint64_t)(uint32_t)s << 32 | (uint32_t)((s - (uint32_t)s) * 4294967296.);
  if(k == 3){ d = t; d.bits = TT_[x]; w = d.bits; ASSUME(!j & !ty); } else ASSUME(!x);
  mnum(&B.m[0], "/a", 1, "i"); mnum(&B.m[1], "/b", 1, "i"); B.m[0].a[0] = k == 1 ? d : t; B.m[1].a[0] = k == 1 ? t : d; int minus = k == 2 || (k == 3 && in_pick(0, 1)); ASSUME(!minus | (t.bits >= w)); setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; CHECK(!ev(minus ? "/a - /b" : "/a + /b", &L, &P, &out), "evaluates"); CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *u = osc_atom_array_u_get(out, 0); uint64_t r = minus ? t.bits - w : t.bits + w;
  if(k == 3 && minus){ CHECK(osc_atom_u_getTypetag(u) == 'd', "a number of seconds"); double v = osc_atom_u_getDouble(u), z = (double)(r >> 32) + (double)(r & 0xffffffff) / 4294967296.; CHECK(v - z < 1e-6 && z - v < 1e-6, "the time between"); }
  else { CHECK(osc_atom_u_getTypetag(u) == 't', "a timetag"); uint64_t v = g_ttbits(osc_atom_u_getTimetag(u)); CHECK(v - r + 2 <= 4, "the time moved by that much"); }
  osc_atom_array_u_free(out); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* an empty list against a longer one */
void h_empty(void){
  static const char *op[] = { "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&", "|" }, *fn[] = { "pow", "atan2", "fmod", "add" }; int k = in_pick(0, 16), side = in_pick(0, 1), n = in_pick(2, 3); char text[40]; if(k < 13) sprintf(text, side ? "/e %s /a" : "/a %s /e", op[k]); else sprintf(text, side ? "%s(/e, /a)" : "%s(/a, /e)", fn[k - 13]);
  B.n = 2; mnum(&B.m[0], "/a", n, "i"); mnum(&B.m[1], "/e", 0, "i"); setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; CHECK(!ev(text, &L, &P, &out), "evaluates"); CHECK(!out || osc_atom_array_u_getLen(out) == 0, "the shorter length decides"); if(out) osc_atom_array_u_free(out); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* E02 */
static double tnum(const g_arg *a){ return a->tt == 'T' ? 1 : a->tt == 'F' ? 0 : rd(a); }
static int truth(const g_arg *a){ switch(a->tt){ case 'T': return 1; case 'F': case 'N': case 's': case 't': case 'b': return 0; case 'f': return u2f((uint32_t)a->bits) != 0; case 'd': return u2d(a->bits) != 0; default: return a->bits != 0; } }
static int isint(char t){ return t && strchr("ihIHcCuU", t) != NULL; }
#define CMP(T, a, b) { T p = (a), q = (b); switch(op){ case 0: return p < q; case 1: return p <= q; case 2: return p > q; case 3: return p >= q; case 4: return p == q; default: return p != q; } }
static int holds(int op, const g_arg *x, const g_arg *y){
  if(x->tt == 'N' || y->tt == 'N') return (op == 4) == (x->tt == y->tt);
  if(x->tt == 's' && y->tt == 's') CMP(int, strcmp((const char *)x->b, (const char *)y->b), 0)
  if(x->tt == 's' || y->tt == 's') CMP(int, x->tt == 's', y->tt == 's')
  if(x->tt == 't') CMP(uint64_t, x->bits, y->bits)
  if(!isint(x->tt) || !isint(y->tt)) CMP(double, tnum(x), tnum(y))
  int X = x->tt == 'H', Y = y->tt == 'H'; int64_t a = ri(x), b = ri(y);
  if(X && Y) CMP(uint64_t, a, b)
  if(X) switch(op){ case 0: return !(a < 0) & (a < b); case 1: return !(a < 0) & (a <= b); case 2: return (a < 0) | (a > b); case 3: return (a < 0) | (a >= b); case 4: return !(a < 0) & (a == b); default: return (a < 0) | (a != b); }
  if(Y) switch(op){ case 0: return (b < 0) | (a < b); case 1: return (b < 0) | (a <= b); case 2: return !(b < 0) & (a > b); case 3: return !(b < 0) & (a >= b); case 4: return !(b < 0) & (a == b); default: return (b < 0) | (a != b); }
  CMP(int64_t, a, b)
}
static void rel_case(int o, int form, const char *t1, const char *t2){
  static const char *sym[] = { "<", "<=", ">", ">=", "==", "!=" }, *fn[] = { "lt", "le", "gt", "ge", "eq", "ne" }; char text[32]; if(form) sprintf(text, "/r = /a %s /b", sym[o]); else sprintf(text, "/r = %s(/a, /b)", fn[o]);
  B.n = 2; mnum(&B.m[0], "/a", in_pick(1, NA), t1); mnum(&B.m[1], "/b", in_pick(1, NA), t2); setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; int r = ev(text, &L, &P, &out); CHECK(r == 0, "evaluates");
  int na = B.m[0].n, nb = B.m[1].n, n = na == 1 ? nb : nb == 1 ? na : na < nb ? na : nb; g_arg e[4];
  for(int i = 0; i < n; i++){ const g_arg *x = &B.m[0].a[na == 1 ? 0 : i], *y = &B.m[1].a[nb == 1 ? 0 : i]; memset(&e[i], 0, sizeof e[i]); if(holds(o, x, y)) e[i].tt = 'T'; else e[i].tt = 'F'; }
  expect("/r", out, n, e); osc_atom_array_u_free(out); CHECK(vh_live() == live0, "no heap block is left");
}
#ifndef KHI
#define KLO 0
#define KHI 4
#endif
void h_rel(void){
  int o = in_pick(0, 5), form = in_pick(0, 1);
  switch(in_pick(KLO, KHI)){
  case 0: rel_case(o, form, TYPES, TYPES); REACH("numbers"); break;
  case 1: rel_case(o, form, "s", "s"); REACH("strings"); break;
  case 2: rel_case(o, form, "t", "t"); REACH("timetags"); break;
  case 3: ASSUME(o >= 4); rel_case(o, form, "Nih", "N"); REACH("nil"); break;
  case 4: ASSUME(o < 4); if(in_pick(0, 1)) rel_case(o, form, "s", "id"); else rel_case(o, form, "id", "s"); REACH("mixed"); break;
  }
}
void h_logic(void){
  static const char *txt[] = { "/r = /a & /b", "/r = /a | /b", "/r = /a && /b", "/r = /a || /b", "/r = !/a", "/r = /a ? 1 : 2" }; int k = in_pick(0, 5); const char *ty = k == 2 || k == 3 ? "TF" : k == 5 ? "TFi" : "ifhdIHcCuUTFN";
  B.n = 2; mnum(&B.m[0], "/a", in_pick(1, k < 2 || k == 4 ? NA : 1), ty); mnum(&B.m[1], "/b", in_pick(1, k < 2 ? NA : 1), k == 4 ? "i" : ty); setup(); long live0 = vh_live(); t_osc_atom_ar_u *out; int r = ev(txt[k], &L, &P, &out); CHECK(r == 0, "evaluates");
  int na = B.m[0].n, nb = B.m[1].n, n = k == 4 ? na : na == 1 ? nb : nb == 1 ? na : na < nb ? na : nb; g_arg e[4];
  for(int i = 0; i < n; i++){ const g_arg *x = &B.m[0].a[na == 1 ? 0 : i], *y = &B.m[1].a[nb == 1 ? 0 : i]; g_arg z = { 'F' };
    if(k == 4){ int v = !truth(x); if(strchr("TFN", x->tt)) z.tt = v ? 'T' : 'F'; else { z.tt = 'i'; z.bits = v; } }
    else if(k == 5){ z.tt = 'i'; z.bits = truth(x) ? 1 : 2; }
    else z.tt = (k & 1 ? truth(x) | truth(y) : truth(x) & truth(y)) ? 'T' : 'F';
    e[i] = z; }
  expect("/r", out, n, e); osc_atom_array_u_free(out); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* E06 */
#ifndef OHI
#define OLO 0
#define OHI 15
#endif
#ifndef NOP
#define NOP 2
#endif
static const struct { const char *t; int p; } OPS[] = { { "^", 7 }, { "*", 6 }, { "/", 6 }, { "%", 6 }, { "+", 5 }, { "-", 5 }, { "<", 4 }, { "<=", 4 }, { ">", 4 }, { ">=", 4 }, { "==", 3 }, { "!=", 3 }, { "&", 2 }, { "&&", 2 }, { "|", 1 }, { "||", 1 } };
static char *paren(char *p, const int *op, int lo, int hi){ /* operands lo..hi; op[i] stands between operand i and i+1 */
  if(lo == hi) return p + sprintf(p, "/%c", 'a' + lo);
  int k = lo; for(int i = lo; i < hi; i++) if(OPS[op[i]].p <= OPS[op[k]].p) k = i;
  *p++ = '('; p = paren(p, op, lo, k); p += sprintf(p, " %s ", OPS[op[k]].t); p = paren(p, op, k + 1, hi); *p++ = ')'; *p = 0; return p;
}
static void same_value(const char *t1, const char *t2){
  setup(); long l2 = L; char *p2 = osc_mem_alloc(L); memcpy(p2, W, L); t_osc_atom_ar_u *o1, *o2; int r1 = ev(t1, &L, &P, &o1), r2 = ev(t2, &l2, &p2, &o2);
  CHECK(!r1 == !r2, "both forms evaluate or both fail"); if(!r1) CHECK(L == l2 && vh_same(P, (unsigned char *)p2, l2), "the value is that of the parenthesised form");
  if(o1) osc_atom_array_u_free(o1); if(o2) osc_atom_array_u_free(o2); osc_mem_free(p2); if(!r1) REACH("value"); else REACH("error");
}
void h_prec(void){
  int op[NOP], hard = 0, logic = 0; for(int i = 0; i < NOP; i++){ op[i] = in_pick(OLO, OHI); int c = OPS[op[i]].t[0]; if(strchr("^%/", c)) hard = 1; if(!strcmp(OPS[op[i]].t, "&&") || !strcmp(OPS[op[i]].t, "||")) logic = 1; }
  B.n = NOP + 1; for(int i = 0; i <= NOP; i++){ char ad[3] = { '/', (char)('a' + i), 0 }; g_msg *m = &B.m[i]; strcpy(m->addr, ad); m->alen = 2; m->n = 1; if(hard){ m->a[0].tt = logic ? "iTF"[in_pick(0, 2)] : 'i'; if(m->a[0].tt == 'i') m->a[0].bits = in_pick(2, 4); } else g_arg_any(&m->a[0], logic ? "iTF" : "i"); }
  char t1[64], t2[64], *p = t1 + sprintf(t1, "/r = /a"); for(int i = 0; i < NOP; i++) p += sprintf(p, " %s /%c", OPS[op[i]].t, 'b' + i); paren(t2 + sprintf(t2, "/r = "), op, 0, NOP); same_value(t1, t2);
}
/* unary operators, indexing, the conditional and assignment against binary operators */
void h_prec_mixed(void){
  int k = in_pick(0, 8), o = in_pick(0, 15), logic = !strcmp(OPS[o].t, "&&") || !strcmp(OPS[o].t, "||") || k == 1, hard = strchr("^%/", OPS[o].t[0]) != NULL; char t1[96], t2[96]; const char *x = OPS[o].t;
  B.n = 3; for(int i = 0; i < 3; i++){ char ad[3] = { '/', (char)('a' + i), 0 }; g_msg *m = &B.m[i]; strcpy(m->addr, ad); m->alen = 2; m->n = 1; if(hard){ m->a[0].tt = logic ? "iTF"[in_pick(0, 2)] : 'i'; if(m->a[0].tt == 'i') m->a[0].bits = in_pick(2, 4); } else g_arg_any(&m->a[0], logic ? "iTF" : "i"); }
  switch(k){
  case 0: sprintf(t1, "/r = -/a %s /b", x); sprintf(t2, "/r = (-/a) %s /b", x); break;
  case 1: sprintf(t1, "/r = !/a %s /b", x); sprintf(t2, "/r = (!/a) %s /b", x); break;
  case 2: sprintf(t1, "/r = /a %s -/b", x); sprintf(t2, "/r = /a %s (-/b)", x); break;
  case 3: sprintf(t1, "/r = /a %s [/b, /c][[1]]", x); sprintf(t2, "/r = /a %s ([/b, /c][[1]])", x); break;
  case 4: sprintf(t1, "/r = /a %s /b ? /b : /c", x); sprintf(t2, "/r = (/a %s /b) ? /b : /c", x); break;
  case 5: sprintf(t1, "/r = /a ? /b : /b %s /c", x); sprintf(t2, "/r = /a ? /b : (/b %s /c)", x); break;
  case 6: sprintf(t1, "/r = /s = /a %s /b", x); sprintf(t2, "/r = (/s = (/a %s /b))", x); break;
  case 7: sprintf(t1, "/c += /a %s /b", x); sprintf(t2, "/c = /c + (/a %s /b)", x); break;
  default: sprintf(t1, "/r = /a ? /b ? 1 : 2 : /c ? 3 : /a %s /b", x); sprintf(t2, "/r = /a ? (/b ? 1 : 2) : (/c ? 3 : (/a %s /b))", x); break;
  }
  same_value(t1, t2);
}
/* E03 */
void h_assign(void){
  some_bundle(VTYPES); g_bndl X = B; setup(); long live0 = vh_live(); t_osc_atom_ar_u *out = NULL; int s = find(&B, "/s"), t = find(&B, "/t"), r, k = in_pick(0, 11), leak = 1; g_arg v[G_MAXARG]; g_msg S; memset(&S, 0, sizeof S); if(s >= 0) S = B.m[s]; g_msg T; memset(&T, 0, sizeof T); if(t >= 0) T = B.m[t];
  switch(k){
  case 0: r = ev("/t = 5", &L, &P, &out); CHECK(!r, "assigns"); v[0] = i32(5); put(&X, "/t", 1, v); break;
  case 1: r = ev("/t = /s", &L, &P, &out); if(s < 0){ CHECK(r, "an unbound address is an error"); break; } CHECK(!r, "assigns"); put(&X, "/t", S.n, S.a); break;
  case 2: r = ev("/t = [1, /s, \"x\"]", &L, &P, &out); if(s < 0){ CHECK(r, "an unbound address is an error"); break; } CHECK(!r, "assigns"); v[0] = i32(1); for(int i = 0; i < S.n; i++) v[1 + i] = S.a[i]; v[1 + S.n] = i32(0); v[1 + S.n].tt = 's'; v[1 + S.n].len = 1; v[1 + S.n].b[0] = 'x'; v[1 + S.n].b[1] = 0; put(&X, "/t", S.n + 2, v); break;
  case 3: r = ev("/t = 1, /u = /t", &L, &P, &out); CHECK(!r, "assigns"); v[0] = i32(1); put(&X, "/t", 1, v); put(&X, "/u", 1, v); break;
  case 4: r = ev("/t = /s = 3", &L, &P, &out); CHECK(!r, "assigns"); v[0] = i32(3); put(&X, "/s", 1, v); put(&X, "/t", 1, v); break;
  case 5: r = ev("delete(/t)", &L, &P, &out); CHECK(!r, "deletes"); drop(&X, "/t"); break;
  case 6: r = ev("/t \?\?= 4", &L, &P, &out); CHECK(!r, "assigns"); if(t < 0 || !T.n){ v[0] = i32(4); put(&X, "/t", 1, v); } break;
  case 7: r = ev("/u = bound(/t)", &L, &P, &out); CHECK(!r, "assigns"); v[0] = i32(0); v[0].bits = 0; v[0].tt = t >= 0 && T.n ? 'T' : 'F'; put(&X, "/u", 1, v); break;
  case 8: r = ev("/u = exists(/t)", &L, &P, &out); CHECK(!r, "assigns"); v[0] = i32(0); v[0].tt = t >= 0 ? 'T' : 'F'; put(&X, "/u", 1, v); break;
  case 9: r = ev("/s = 2, /t = /zz, /u = 3", &L, &P, &out); CHECK(r, "an unbound address is an error"); v[0] = i32(2); put(&X, "/s", 1, v); break;
  case 10: r = ev("/t = getmsgcount()", &L, &P, &out); CHECK(!r, "assigns"); v[0] = i32(B.n); put(&X, "/t", 1, v); break;
  case 11: r = ev("/t = 1, delete(/t), /u = exists(/t)", &L, &P, &out); CHECK(!r, "evaluates"); drop(&X, "/t"); v[0] = i32(0); v[0].tt = 'F'; if(t < 0){ drop(&X, "/t"); } put(&X, "/u", 1, v); break;
  }
  holds_bytes(&X, "the bundle holds the value and nothing else changed"); if(out) osc_atom_array_u_free(out); CHECK(vh_live() == live0 || r, "no heap block is left"); if(r) REACH("failed"); else REACH("done");
}
/* assignment to positions, at any index */
#ifndef KLO
#define KLO 0
#define KHI 3
#endif
void h_assign_index(void){
  some_bundle("i"); g_msg *iv = &B.m[B.n++]; memset(iv, 0, sizeof *iv); strcpy(iv->addr, "/i"); iv->alen = 2; iv->n = in_pick(1, 2); for(int i = 0; i < iv->n; i++) g_arg_any(&iv->a[i], "i");
  g_bndl X = B; setup(); t_osc_atom_ar_u *out = NULL; int t = find(&B, "/t"), r, k = in_pick(KLO, KHI); long live0 = vh_live(); g_arg v[G_MAXARG]; g_msg T; memset(&T, 0, sizeof T); if(t >= 0) T = B.m[t];
  static const char *txt[] = { "/t[[/i]] = 7", "/t[[/i]] = [7, 8]", "/t[[/i]] = (/u = 9)", "/t[[0:1]] = [7, 8]", "/t[[/i]] = [7, 8, 5]", "/t[[/i, 0, 0]] = [7, 8]" }; r = ev(txt[k], &L, &P, &out);
  if(t >= 0){ int ix[2] = { (int32_t)iv->a[0].bits, (int32_t)iv->a[1].bits }, ni = iv->n; if(k == 3){ ix[0] = 0; ix[1] = 1; ni = 2; } if(k == 5 && ni == 1){ ix[1] = 0; ni = 2; }
    int bad = 0; for(int i = 0; i < ni; i++) if(!((unsigned)ix[i] < (unsigned)T.n)) bad = 1; else { int idx = ix[i] == 0 ? 0 : 1; T.a[idx] = i32(k == 2 ? 9 : (k && k != 2 && i == 1) ? 8 : 7); }
    if(k == 2){ v[0] = i32(9); put(&X, "/u", 1, v); }
    if(bad) REACH("outside"); put(&X, "/t", T.n, T.a); if(!r) REACH("done");
  } else { CHECK(r, "an unbound address is an error"); }
  if(r){ long n = 0; CHECK(!osc_bundle_s_getMsgCount(L, P, &n), "the bundle stays well-formed"); REACH("failed"); } else holds_bytes(&X, "exactly the positions named hold the new values"); if(out) osc_atom_array_u_free(out); CHECK(vh_live() == live0 || r, "no heap block is left");
}
VH_MAIN
