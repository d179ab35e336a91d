#define G_MAXARG 10
#include "expr.h"
/* E09, E10: functions on numbers and strings that the other harnesses of the language leave out */
#ifndef LA
#define LA 2
#endif
#ifndef MP
#define MP 3
#endif
#ifndef SL
#define SL 3
#endif
#ifndef HL
#define HL 3
#endif
static t_osc_atom_ar_u *out; static long live0; static g_arg e[32];
static int run(const char *t){ live0 = vh_live(); return ev(t, &L, &P, &out); }
static void done(void){ if(out) osc_atom_array_u_free(out); out = NULL; CHECK(vh_live() == live0, "no heap block is left"); }
static void same_bundle(void){ CHECK(L == (long)g_enc_bndl(W, &B) && vh_same(P, W, L), "the arguments are unmodified"); }
static void value_is(int n){ CHECK((out ? osc_atom_array_u_getLen(out) : 0) == n, "length of the value"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(out, i), &e[i]), "element of the value"); same_bundle(); done(); }
static g_arg mk(char t, uint64_t bits){ g_arg a; memset(&a, 0, sizeof a); a.tt = t; a.bits = bits; return a; }
static g_arg dbl(double d){ return mk('d', d2u(d)); }
static void mset(int k, const char *ad, int n){ g_msg *m = &B.m[k]; memset(m, 0, sizeof *m); strcpy(m->addr, ad); m->alen = strlen(ad); m->n = n; if(B.n <= k) B.n = k + 1; }
static void any(int k, const char *ad, int n, const char *types){ if(B.n <= k) B.n = k + 1; memset(&B.m[k], 0, sizeof B.m[k]); mnum(&B.m[k], ad, n, types); }
#define ARG(k, i) (&B.m[k].a[i])
/* functions of one number: the function of libm of that name, whatever the number; libm is uninterpreted */
#define U(f) { #f, f }
static const struct { const char *n; double (*f)(double); } UN[] = { U(acos), U(asin), U(atan), U(ceil), U(cos), U(cosh), U(exp), U(floor), U(log), U(log10), U(sin), U(sinh), U(sqrt), U(tan), U(tanh), U(erf), U(erfc), { "gamma", tgamma }, U(lgamma), U(j0), U(j1), U(y0), U(y1), U(acosh), U(asinh), U(atanh), U(cbrt), U(expm1), U(logb), U(round), { "abs", fabs } };
#define NUN ((int)(sizeof UN / sizeof *UN))
void h_unary(void){
  int k = in_pick(0, NUN - 1), n = in_pick(0, LA); any(0, "/a", n, n < 2 ? TYPES : "di"); setup(); char t[32]; sprintf(t, "%s(/a)", UN[k].n); int r = run(t);
  if(!n){ CHECK(r, "a function of nothing is an error"); done(); REACH("empty"); return; }
  CHECK(!r, "evaluates"); for(int i = 0; i < n; i++) e[i] = dbl(UN[k].f(rd(ARG(0, i)))); value_is(n); REACH("done");
}
/* functions of two numbers: elementwise, one element against a list */
static double jn_(double n, double x){ return jn((int)n, x); }
static double yn_(double n, double x){ return yn((int)n, x); }
static const struct { const char *n; double (*f)(double, double); } BN[] = { U(atan2), U(fmod), U(pow), U(hypot), U(remainder), U(nextafter), { "jn", jn_ }, { "yn", yn_ } };
void h_binary(void){
  int k = in_pick(0, 7), n = in_pick(1, LA + 1), m = in_pick(1, LA + 1), whole = k > 5; ASSUME((n <= LA) | (m <= LA)); if(n > LA || m > LA) ASSUME(k < 4); any(0, "/a", n, whole ? "i" : n + m < 3 ? TYPES : "d"); any(1, "/b", m, n + m < 3 ? TYPES : "d"); setup(); char t[32]; sprintf(t, "%s(/a, /b)", BN[k].n); int r = run(t);
  CHECK(!r, "evaluates"); int l = whole ? 1 : n == 1 ? m : m == 1 ? n : n < m ? n : m; for(int i = 0; i < l; i++) e[i] = dbl(BN[k].f(rd(ARG(0, n == 1 ? 0 : i)), rd(ARG(1, m == 1 ? 0 : i)))); value_is(l); REACH("done");
}
/* constants */
void h_const(void){
  static const struct { const char *n; double v; } C[] = { { "pi", M_PI }, { "twopi", 2 * M_PI }, { "halfpi", M_PI_2 }, { "quarterpi", M_PI_4 }, { "oneoverpi", M_1_PI }, { "twooverpi", M_2_PI }, { "degtorad", M_PI / 180 }, { "radtodeg", 180 / M_PI }, { "e", M_E }, { "lntwo", M_LN2 }, { "lnten", M_LN10 }, { "logtwoe", M_LOG2E }, { "logtene", M_LOG10E }, { "sqrttwo", M_SQRT2 }, { "sqrthalf", M_SQRT1_2 }, { "phi", 1.6180339887498948482 }, { "twelfth_root_of_2", 1.0594630943592952646 }, { "thirteenth_root_of_3", 1.0881822434633168 } };
  int k = in_pick(0, (int)(sizeof C / sizeof *C) - 1); B.n = 0; setup(); char t[40]; sprintf(t, "%s()", C[k].n); CHECK(!run(t), "evaluates"); CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *a = osc_atom_array_u_get(out, 0); CHECK(osc_atom_u_getTypetag(a) == 'd', "a double"); double d = osc_atom_u_getDouble(a); CHECK(fabs(d - C[k].v) < 1e-14 * C[k].v, "the constant"); same_bundle(); done(); REACH("done");
}
/* formulas, on a table of numbers */
static const double X[] = { 0, 1, -3, 60, 69, 0.5, 127, 440, 1e6 };
static double pickx(g_arg *a){ int i = in_pick(0, 8), t = X[i] == 0.5 ? 0 : in_pick(0, 1); *a = t ? mk('i', (uint32_t)(int)X[i]) : dbl(X[i]); return X[i]; }
static double only(void){ CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); CHECK(osc_atom_u_getTypetag(osc_atom_array_u_get(out, 0)) == 'd', "a double"); return osc_atom_u_getDouble(osc_atom_array_u_get(out, 0)); }
static int near(double a, double b){ return a == b || (a != a && b != b) || fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b) + 1e-3); }
void h_formula(void){
  int k = in_pick(0, 4); mset(0, "/a", 1); double x = pickx(ARG(0, 0)), y = 0; if(k){ mset(1, "/b", 1); y = pickx(ARG(1, 0)); } setup();
  static const char *t[] = { "mtof(/a)", "mtof(/a, /b)", "ftom(/a, /b)", "l2norm(list(/a, /b))", "dot(list(/a, /b), list(/b, 2.))" }; CHECK(!run(t[k]), "evaluates"); double v = only();
  CHECK(near(v, k == 0 ? 440 * pow(2, (x - 69) / 12) : k == 1 ? y * pow(2, (x - 69) / 12) : k == 2 ? 69 + 12 * log2(x / y) : k == 3 ? sqrt(x * x + y * y) : x * y + y * 2), "the formula"); same_bundle(); done(); REACH("done");
}
/* the remainder is never negative and smaller than the divisor */
static const int64_t MI[] = { 0, 1, -1, 7, -7, 3, -3, 1000000, 2147483647, -2147483648ll, 1099511627776ll, 4294967295ll, 127 };
void h_mod(void){
  int k = in_pick(0, 2), i = in_pick(0, 12), j = in_pick(0, 12); int64_t x = MI[i], y = MI[j]; int fl = in_pick(0, 1); mset(0, "/a", 1); mset(1, "/b", 1); *ARG(0, 0) = fl ? dbl(x) : x == (int32_t)x ? mk('i', (uint32_t)x) : mk('h', x); *ARG(1, 0) = y == (int32_t)y ? mk('i', (uint32_t)y) : mk('h', y); setup();
  static const char *t[] = { "/a % /b", "mod(/a, /b)", "/a %= /b" }; CHECK(!run(t[k]), "evaluates"); int64_t m = y < 0 ? -y : y, r = y ? ((x % m) + m) % m : x; CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *a = osc_atom_array_u_get(out, 0);
  CHECK(fl == (osc_atom_u_getTypetag(a) == 'd'), "the remainder of integers is an integer"); CHECK(fl ? osc_atom_u_getDouble(a) == (double)r : osc_atom_u_getInt64(a) == r, "the remainder"); if(k < 2) same_bundle(); if(k < 2) done(); else osc_atom_array_u_free(out); REACH("done");
}
/* the hull of points of a small grid: each vertex of it, and no point inside it */
static int hx[6], hy[6], hn; static int side_of(int p, int q, int r){ return (hx[q] - hx[p]) * (hy[r] - hy[p]) - (hy[q] - hy[p]) * (hx[r] - hx[p]); }
static int same_pt(int p, int q){ return hx[p] == hx[q] && hy[p] == hy[q]; }
static int on_edge(int p){ int all = 1; for(int q = 0; q < hn; q++){ if(same_pt(p, q)) continue; all = 0; int l = 0, r = 0; for(int k = 0; k < hn; k++){ int s = side_of(p, q, k); if(s > 0) l = 1; if(s < 0) r = 1; } if(!(l && r)) return 1; } return all; }
static int is_vertex(int p){ if(!on_edge(p)) return 0; for(int a = 0; a < hn; a++) for(int b = a + 1; b < hn; b++) if(!same_pt(a, p) && !same_pt(b, p) && side_of(a, b, p) == 0 && (hx[a] - hx[p]) * (hx[b] - hx[p]) + (hy[a] - hy[p]) * (hy[b] - hy[p]) < 0) return 0; return 1; }
void h_hull(void){
  static const int S[] = { 0, 4, 1, 7, 2, 8 }; int two = in_pick(0, 1); hn = in_pick(2, 5); for(int i = 0; i < hn; i++){ int g = hn == 5 ? S[in_pick(0, HL)] : hn == 4 ? (i ? in_pick(0, 8) : in_pick(0, 1) * 4 + two) : in_pick(0, 8); hx[i] = g % 3 * 2 - 1; hy[i] = g / 3 * 5 - 3; } if(hn == 3) ASSUME(!two || (hx[0] == 1 && hy[1] == 2)); if(hn == 5 || hn == 2) ASSUME(two == (hx[0] == hx[1]));
  if(two){ mset(0, "/a", hn); mset(1, "/b", hn); for(int i = 0; i < hn; i++){ *ARG(0, i) = mk('i', (uint32_t)hx[i]); *ARG(1, i) = dbl(hy[i]); } } else { mset(0, "/a", 2 * hn); for(int i = 0; i < hn; i++){ *ARG(0, 2 * i) = dbl(hx[i]); *ARG(0, 2 * i + 1) = mk('i', (uint32_t)hy[i]); } } setup();
  run(two ? "quickhull(/a, /b)" : "quickhull(/a)"); int m = out ? osc_atom_array_u_getLen(out) : 0; if(hn < 3){ CHECK(!m, "three points at least"); same_bundle(); done(); REACH("few"); return; } CHECK(m % 2 == 0, "pairs"); int used[6] = { 0 };
  for(int i = 0; i < m; i += 2){ double x = osc_atom_u_getDouble(osc_atom_array_u_get(out, i)), y = osc_atom_u_getDouble(osc_atom_array_u_get(out, i + 1)); int f = 0; for(int p = 0; p < hn && !f; p++) if(!used[p] && x == hx[p] && y == hy[p]) used[p] = f = 1; CHECK(f, "one of the points"); }
  for(int p = 0; p < hn; p++){ if(used[p]) CHECK(on_edge(p), "no point inside the hull"); if(is_vertex(p)){ int f = 0; for(int q = 0; q < hn; q++) if(used[q] && same_pt(p, q)) f = 1; CHECK(f, "every vertex of the hull"); } }
  same_bundle(); done(); REACH("done");
}
/* clip and scale */
static const int64_t CI[] = { 0, 1, -1, 5, -5, 2147483647, -2147483648ll, 1099511627776ll, -1099511627776ll };
void h_clip(void){
  int i = in_pick(0, 8), j = in_pick(0, 8), k = in_pick(0, 8), fl = in_pick(0, 3); ASSUME(CI[j] <= CI[k]); int64_t c[3] = { CI[i], CI[j], CI[k] }; static const char *ad[] = { "/a", "/b", "/c" }; for(int q = 0; q < 3; q++){ mset(q, ad[q], 1); *ARG(q, 0) = (fl == 1 && !q) || (fl == 2 && q == 1) || (fl == 3 && q == 2) ? dbl(c[q]) : c[q] == (int32_t)c[q] ? mk('i', (uint32_t)c[q]) : mk('h', c[q]); } setup();
  CHECK(!run("clip(/a, /b, /c)"), "evaluates"); int64_t r = c[0] < c[1] ? c[1] : c[0] > c[2] ? c[2] : c[0]; CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *a = osc_atom_array_u_get(out, 0); CHECK(fl ? osc_atom_u_getTypetag(a) == 'd' : osc_atom_u_getTypetag(a) != 'd', "integers stay integers"); CHECK(fl ? osc_atom_u_getDouble(a) == (double)r : osc_atom_u_getInt64(a) == r, "the nearest value in the range"); same_bundle(); done(); REACH("done");
}
void h_scale(void){
  static const int T[] = { 0, 1, -4, 16 }; int c[5]; int fl = in_pick(0, 6); /* 1 to 5: one of them is a float, 6: all are doubles */ static const char *ad[] = { "/a", "/b", "/c", "/d", "/e" }; for(int q = 0; q < 5; q++){ c[q] = T[in_pick(0, fl % 6 ? 2 : 3)]; mset(q, ad[q], 1); *ARG(q, 0) = fl == 6 ? dbl(c[q]) : fl == q + 1 ? mk('f', f2u(c[q])) : mk('i', (uint32_t)c[q]); } ASSUME(c[1] != c[2]); setup();
  CHECK(!run("scale(/a, /b, /c, /d, /e)"), "evaluates"); CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *a = osc_atom_array_u_get(out, 0); double v = c[3] + (double)(c[0] - c[1]) * (c[4] - c[3]) / (c[2] - c[1]); CHECK(osc_atom_u_getTypetag(a) == (fl ? 'd' : 'i'), "integers stay integers"); if(fl) CHECK(near(osc_atom_u_getDouble(a), v), "the line through both points"); else CHECK(fabs(osc_atom_u_getInt32(a) - v) < 1 + 1e-9, "the line through both points, truncated"); same_bundle(); done(); REACH("done");
}
/* products of vectors and determinants */
void h_cross(void){
  static const char T[] = "ihdcf"; char t[2] = { T[in_pick(0, 4)], 0 }; int n = in_pick(2, 4); int64_t v[2][4]; for(int m = 0; m < 2; m++){ mset(m, m ? "/b" : "/a", n > 3 && m ? 3 : n); for(int i = 0; i < B.m[m].n; i++){ v[m][i] = (m ? (int[]){ 2, -1, 4, 0 } : (int[]){ -3, 5, 1, 7 })[i] + (i == 1 ? in_pick(0, 2) : 0); double d = v[m][i]; *ARG(m, i) = *t == 'd' ? dbl(d) : *t == 'f' ? mk('f', f2u((float)d)) : mk(*t, *t == 'i' ? (uint32_t)v[m][i] : *t == 'c' ? (uint8_t)v[m][i] : (uint64_t)v[m][i]); } } setup();
  int r = run("cross(/a, /b)"); if(n != 3){ CHECK(r, "only of vectors of three"); done(); REACH("error"); return; } CHECK(!r, "evaluates"); CHECK(osc_atom_array_u_getLen(out) == 3, "a vector of three");
  for(int i = 0; i < 3; i++){ int p = (i + 1) % 3, q = (i + 2) % 3; t_osc_atom_u *a = osc_atom_array_u_get(out, i); CHECK(osc_atom_u_getTypetag(a) == *t, "of the same type"); CHECK(osc_atom_u_getDouble(a) == (double)(v[0][p] * v[1][q] - v[0][q] * v[1][p]), "the cross product"); } same_bundle(); done(); REACH("done");
}
void h_det(void){ /* a permutation of a triangular matrix */
  int n = in_pick(1, 5), p[5], s = 1; static const int D[] = { 2, -3, 1, 0 }; double det = 1; static const char *ad[] = { "/a", "/b", "/c", "/d", "/e" }; for(int i = 0; i < n; i++){ p[i] = in_pick(0, n - 1); for(int j = 0; j < i; j++){ ASSUME(p[j] != p[i]); if(p[j] > p[i]) s = -s; } }
  int z = in_pick(0, n); for(int i = 0; i < n; i++){ int r = p[i]; mset(r, ad[r], n); int d = i == z ? 0 : D[(i + n) % 3]; det *= d; for(int j = 0; j < n; j++) *ARG(r, j) = j < i ? dbl(0) : j > i ? dbl(i + j) : dbl(d); } det *= s; setup();
  static const char *t[] = { "det(/a)", "det(/a, /b)", "det(/a, /b, /c)", "det(/a, /b, /c, /d)", "det(/a, /b, /c, /d, /e)" }; CHECK(!run(t[n - 1]), "evaluates"); CHECK(near(only(), det), "the determinant"); same_bundle(); done(); REACH("done");
}
/* bitwise and, or */
void h_bits(void){
  int k = in_pick(0, 1); any(0, "/a", 1, "cCuUiIhH"); any(1, "/b", 1, "cCuUiIhH"); setup(); CHECK(!run(k ? "bitor(/a, /b)" : "bitand(/a, /b)"), "evaluates"); char t = promoted(ARG(0, 0)->tt, ARG(1, 0)->tt); uint64_t x = ri(ARG(0, 0)), y = ri(ARG(1, 0)), r = k ? x | y : x & y; int w = strchr("cC", t) ? 8 : strchr("uU", t) ? 16 : strchr("iI", t) ? 32 : 64; if(w < 64) r &= (1ull << w) - 1; e[0] = mk(t, r); value_is(1); REACH("done");
}
/* byte order */
void h_order(void){
  int k = in_pick(0, 3); any(0, "/a", 1, k < 2 ? "iI" : "hH"); setup(); static const char *t[] = { "hton32(/a)", "ntoh32(/a)", "hton64(/a)", "ntoh64(/a)" }; CHECK(!run(t[k]), "evaluates"); uint64_t x = ARG(0, 0)->bits; unsigned char b[8]; if(k < 2){ wr32(b, (uint32_t)x); uint32_t v; memcpy(&v, b, 4); x = v; } else { wr64(b, x); memcpy(&x, b, 8); }
  CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *a = osc_atom_array_u_get(out, 0); CHECK(k < 2 ? osc_atom_u_getUInt32(a) == (uint32_t)x && strchr("iI", osc_atom_u_getTypetag(a)) != NULL : osc_atom_u_getUInt64(a) == x && strchr("hH", osc_atom_u_getTypetag(a)) != NULL, "the bytes in the other order"); same_bundle(); done(); REACH("done");
}
/* casts: the conversion of C, for the numbers that the type can hold */
void h_cast(void){
  static const char *N[] = { "int8", "char", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool" }; static const char T[] = "ccCuUiIhHfdB"; int k = in_pick(0, 11), dyn = k < 11 && in_pick(0, 1), n = in_pick(0, 1) + 1; any(0, "/a", n, n == 1 ? TYPES "TF" : "id"); if(dyn){ mset(1, "/t", 1); *ARG(1, 0) = mk('c', T[k]); } setup();
  for(int i = 0; i < n; i++){ g_arg *a = ARG(0, i); int b = a->tt == 'T' || a->tt == 'F'; int64_t v = b ? a->tt == 'T' : 0; double d = b ? v : rd(a); if(!b && !isf(a->tt)) v = ri(a);
    if(isf(a->tt) && k < 9){ static const double LO[] = { -128, -128, 0, -32768, 0, -2147483648., 0, -9e18, 0 }, HI[] = { 127, 127, 255, 32767, 65535, 2147483647, 4294967295., 9e18, 1.8e19 }; ASSUME(d >= LO[k] && d <= HI[k]); if(k == 8) e[i].bits = (uint64_t)d; else v = (int64_t)d; }
    switch(T[k]){ case 'c': case 'C': e[i] = mk(T[k], (uint8_t)v); break; case 'u': case 'U': e[i] = mk(T[k], (uint16_t)v); break; case 'i': case 'I': e[i] = mk(T[k], (uint32_t)v); break; case 'h': e[i] = mk('h', v); break; case 'H': e[i] = mk('H', isf(a->tt) ? e[i].bits : (uint64_t)v); break;
    case 'f': e[i] = mk('f', a->tt == 'f' ? a->bits : isf(a->tt) || b ? f2u((float)d) : a->tt == 'H' ? f2u((float)(uint64_t)v) : f2u((float)v)); break; case 'd': e[i] = mk('d', d2u(d)); break; case 'B': e[i] = mk(isf(a->tt) ? (d != 0 ? 'T' : 'F') : v ? 'T' : 'F', 0); break; } }
  char t[40]; if(dyn) strcpy(t, "cast(/t, /a)"); else sprintf(t, "%s(/a)", N[k]); CHECK(!run(t), "evaluates"); value_is(n); REACH("done");
}
/* strings */
static void str(int k, const char *ad, int lo, int hi){ mset(k, ad, 1); g_arg *a = ARG(k, 0); a->tt = 's'; a->len = in_pick(lo, hi); for(int i = 0; i < a->len; i++){ a->b[i] = in_u8(); ASSUME(a->b[i]); } a->b[a->len] = 0; }
static int only_int(void){ CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); return osc_atom_u_getInt32(osc_atom_array_u_get(out, 0)); }
static int is_str(t_osc_atom_u *a, const char *s, int n){ if(!a || osc_atom_u_getTypetag(a) != 's') return 0; const char *p = osc_atom_u_getStringPtr(a); return p && (int)strlen(p) == n && vh_same(p, s, n); }
void h_strlen(void){ str(0, "/a", 0, SL + 1); setup(); CHECK(!run("strlen(/a)"), "evaluates"); CHECK(only_int() == ARG(0, 0)->len, "the length"); same_bundle(); done(); REACH("done"); }
void h_strcmp(void){
  int k = in_pick(0, 1), n = -1; str(0, "/a", 0, SL); str(1, "/b", 0, SL); if(k){ mset(2, "/n", 1); n = in_pick(0, SL); *ARG(2, 0) = i32(n); } setup(); CHECK(!run(k ? "strcmp(/a, /b, /n)" : "strcmp(/a, /b)"), "evaluates"); int v = only_int(), r = 0, stop = 0; const unsigned char *x = (unsigned char *)ARG(0, 0)->b, *y = (unsigned char *)ARG(1, 0)->b;
  for(int i = 0; i <= SL && i != n && !stop; i++){ if(x[i] != y[i]){ r = x[i] < y[i] ? -1 : 1; stop = 1; } else if(!x[i]) stop = 1; } CHECK((v > 0) == (r > 0) && (v < 0) == (r < 0), "the order of the strings"); same_bundle(); done(); REACH("done");
}
void h_strchar(void){
  str(0, "/a", 0, SL); any(1, "/i", in_pick(1, 2), "i"); setup(); int r = run("strchar(/i, /a)"), bad = 0; char w[3]; for(int i = 0; i < B.m[1].n; i++){ int x = (int32_t)ARG(1, i)->bits, hit = 0; for(int j = 0; j < ARG(0, 0)->len; j++) if(!hit && x == j){ w[i] = ARG(0, 0)->b[j]; hit = 1; } bad |= !hit; }
  if(bad){ CHECK(r, "a position outside the string is an error"); done(); REACH("outside"); return; } CHECK(!r && out && osc_atom_array_u_getLen(out) == 1 && is_str(osc_atom_array_u_get(out, 0), w, B.m[1].n), "the characters at the positions"); same_bundle(); done(); REACH("done");
}
void h_strfind(void){
  str(0, "/a", 1, 2); str(1, "/b", 0, SL + 1); setup(); CHECK(!run("strfind(/a, /b)"), "evaluates"); g_arg *a = ARG(0, 0), *b = ARG(1, 0); int n = 0; for(int i = 0; i + a->len <= b->len; ){ if(!memcmp(a->b, b->b + i, a->len)){ e[n++] = mk('h', i); i += a->len; } else i++; } value_is(n); if(n) REACH("found"); else REACH("absent");
}
/* split cuts at every character of the separator and drops empty parts; joining them gives the string back */
void h_split(void){
  str(0, "/s", 1, 2); str(1, "/a", 0, SL + 1); setup(); CHECK(!run("split(/s, /a)"), "evaluates"); g_arg *s = ARG(0, 0), *a = ARG(1, 0); int n = 0, o = 0, at[8], ln[8]; for(int i = 0; i <= a->len; i++){ int cut = i == a->len; for(int j = 0; j < s->len; j++) if(!cut && s->b[j] == a->b[i]) cut = 1; if(cut){ if(i > o){ at[n] = o; ln[n++] = i - o; } o = i + 1; } }
  CHECK((out ? osc_atom_array_u_getLen(out) : 0) == n, "number of parts"); for(int i = 0; i < n; i++) CHECK(is_str(osc_atom_array_u_get(out, i), (char *)a->b + at[i], ln[i]), "the part"); same_bundle(); done(); if(n) REACH("parts"); else REACH("nothing");
}
void h_join(void){
  str(0, "/s", 0, 2); int k = in_pick(0, 3); str(1, "/a", 0, SL); if(k) str(2, "/b", 0, SL); if(k == 3) str(3, "/c", 1, 1); setup(); CHECK(!run(k == 3 ? "join(/s, list(/a, /b, /c))" : k == 2 ? "join(/s, list(/a, /b))" : k ? "join(/s, /a, /b)" : "join(/s, /a)"), "evaluates"); char w[32]; int n = 0; for(int i = 1; i < B.n; i++){ if(i > 1){ memcpy(w + n, ARG(0, 0)->b, ARG(0, 0)->len); n += ARG(0, 0)->len; } memcpy(w + n, ARG(i, 0)->b, ARG(i, 0)->len); n += ARG(i, 0)->len; }
  CHECK(out && osc_atom_array_u_getLen(out) == 1 && is_str(osc_atom_array_u_get(out, 0), w, n), "the strings with the separator between them"); same_bundle(); done(); REACH("done");
}
/* match sorts addresses: those that match the pattern, those that match the beginning of it, and the others */
static void adr(g_arg *a, int hi, int pat){ a->tt = 's'; a->len = g_addr_chars((char *)a->b, 1, hi, pat); a->b[a->len] = 0; }
static void match_list(t_osc_msg_u *m, const char *name, int want, const char **w){ CHECK(m && !strcmp(osc_message_u_getAddress(m), name) && osc_message_u_getArgCount(m) == want, "addresses of the group"); for(int i = 0; i < want; i++) CHECK(is_str(osc_message_u_getArg(m, i), w[i], (int)strlen(w[i])), "address in its group"); }
void h_fmatch(void){
  int two = in_pick(0, 1), n = in_pick(0, 2), num = n ? in_pick(0, 1) : 0; mset(0, "/p", 1 + two); adr(ARG(0, two), MP, 1); if(two){ g_arg *p = ARG(0, 0); p->tt = 's'; strcpy((char *)p->b, "/b/c"); p->len = 4; } mset(1, "/a", n + num); for(int i = 0; i < n; i++) adr(ARG(1, i), MP, 0); if(num) *ARG(1, n) = i32(5); setup(); CHECK(!run("match(/p, /a)"), "evaluates"); CHECK(out && osc_atom_array_u_getLen(out) == 1 + two, "a bundle for every pattern");
  for(int i = 0; i <= two; i++){ const char *w[3][2], *p = (char *)ARG(0, i)->b; int c[3] = { 0, 0, 0 }; for(int j = 0; j < n; j++){ const char *a = (char *)ARG(1, j)->b; int po = 0, ao = 0, r = osc_match(p, a, &po, &ao), g = r == 3 ? 0 : r == 1 && p[po] == '/' ? 1 : 2; w[g][c[g]++] = a; }
    t_osc_atom_u *o = osc_atom_array_u_get(out, i); CHECK(osc_atom_u_getTypetag(o) == '.', "a bundle"); t_osc_bndl_u *b = osc_atom_u_getBndl(o); CHECK(b && osc_bundle_u_getMsgCount(b) == 4, "four groups"); t_osc_msg_u *m = osc_bundle_u_getFirstMsg(b); const char *pp = p; match_list(m, "/pattern", 1, &pp); m = osc_message_u_next(m); match_list(m, "/full", c[0], w[0]); m = osc_message_u_next(m); match_list(m, "/partial", c[1], w[1]); m = osc_message_u_next(m); match_list(m, "/unmatched", c[2], w[2]); if(c[0]) REACH("full"); if(c[1]) REACH("partial"); }
  same_bundle(); done(); REACH("done");
}
/* the type characters of a list */
void h_types(void){ int n = in_pick(0, 2); any(0, "/a", n, "ifhdIHcCuUsTFNtb"); setup(); CHECK(!run("typetags(/a)"), "evaluates"); for(int i = 0; i < n; i++) e[i] = mk('c', B.m[0].a[i].tt); value_is(n); REACH("done"); }
VH_MAIN
