#define G_MAXARG 10
#include "expr.h"
/* E04: list functions.  The bundle holds /a and /b (lists of at most LA elements) and /i (indexes); each
   function is evaluated as a user would and compared with its sequence meaning. */
#ifndef LA
#define LA 2
#endif
#ifndef LT
#define LT "ids"
#endif
static g_msg *A, *Bm, *I;
static void lists(int na, const char *ta, int nb, const char *tb, int ni){
  B.n = 3; A = &B.m[0]; Bm = &B.m[1]; I = &B.m[2]; mnum(A, "/a", na, ta); mnum(Bm, "/b", nb, tb); mnum(I, "/i", ni, "i"); setup();
}
static t_osc_atom_ar_u *out; static long live0;
static int run(const char *t){ live0 = vh_live(); return ev(t, &L, &P, &out); }
static void done(void){ if(out) osc_atom_array_u_free(out); CHECK(vh_live() == live0, "no heap block is left"); }
static void unchanged(void){ CHECK(L == (long)g_enc_bndl(W, &B) && vh_same(P, W, L), "the lists are unmodified"); }
static void value_is(int n, const g_arg *e){
  CHECK((out ? osc_atom_array_u_getLen(out) : 0) == n, "length of the value"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(out, i), &e[i]), "element of the value"); unchanged(); done();
}
static g_arg dbl(double d){ g_arg a; memset(&a, 0, sizeof a); a.tt = 'd'; a.bits = d2u(d); return a; }
/* functions that select or arrange elements */
void h_select(void){
  int k = in_pick(0, 13), na = in_pick(0, LA), two = k >= 8, nb = two ? in_pick(0, LA) : 0; lists(na, LT, nb, k == 13 ? "i" : LT, 0); g_arg *a = A->a, *b = Bm->a; g_arg e[G_MAXARG * 2]; int n = 0, r;
  static const char *txt[] = { "length(/a)", "reverse(/a)", "rev(/a)", "first(/a)", "last(/a)", "rest(/a)", "butlast(/a)", "identity(/a)", "list(/a, /b)", "interleave(/a, /b)", "prog1(/a, /b)", "prog2(/a, /b)", "progn(/b, /a)", "length([1, /a], /b)" };
  if(k == 13){ r = run("length(list(1, /a, /b))"); } else r = run(txt[k]);
  CHECK(!r, "evaluates");
  switch(k){
  case 0: e[n++] = i32(na); break;
  case 1: case 2: for(int i = na - 1; i >= 0; i--) e[n++] = a[i]; break;
  case 3: if(na) e[n++] = a[0]; break;
  case 4: if(na) e[n++] = a[na - 1]; break;
  case 5: for(int i = 1; i < na; i++) e[n++] = a[i]; break;
  case 6: for(int i = 0; i + 1 < na; i++) e[n++] = a[i]; break;
  case 7: case 10: case 12: for(int i = 0; i < na; i++) e[n++] = a[i]; break;
  case 8: for(int i = 0; i < na; i++) e[n++] = a[i]; for(int i = 0; i < nb; i++) e[n++] = b[i]; break;
  case 9: for(int i = 0; i < na && i < nb; i++){ e[n++] = a[i]; e[n++] = b[i]; } break;
  case 11: for(int i = 0; i < nb; i++) e[n++] = b[i]; break;
  case 13: e[n++] = i32(1 + na + nb); break;
  }
  if(!na) REACH("empty"); value_is(n, e); REACH("done");
}
/* lists of three lengths */
void h_three(void){
  int k = in_pick(0, 4), n3[3], n = 0, min = 9; for(int i = 0; i < 3; i++){ n3[i] = in_pick(0, LA + 1); if(n3[i] < min) min = n3[i]; } lists(n3[0], "i", n3[1], "i", n3[2]); g_msg *m[3] = { A, Bm, I }; g_arg e[G_MAXARG * 3];
  static const char *txt[] = { "interleave(/a, /b, /i)", "list(/a, /b, /i)", "progn(/a, /b, /i)", "length([/a, /b, /i])", "[/a, /b, /i]" }; CHECK(!run(txt[k]), "evaluates");
  switch(k){ case 0: for(int i = 0; i < min; i++) for(int j = 0; j < 3; j++) e[n++] = m[j]->a[i]; break; case 1: case 4: for(int j = 0; j < 3; j++) for(int i = 0; i < n3[j]; i++) e[n++] = m[j]->a[i]; break; case 2: for(int i = 0; i < n3[2]; i++) e[n++] = I->a[i]; break; case 3: e[n++] = i32(n3[0] + n3[1] + n3[2]); break; }
  value_is(n, e); REACH("done");
}
void h_nth(void){
  int k = in_pick(0, 3), na = in_pick(0, LA), ni = in_pick(0, 2); lists(na, LT, 0, "i", ni); g_arg e[G_MAXARG]; int n = 0, bad = 0;
  static const char *txt[] = { "/a[[/i]]", "nth(/a, /i)", "nth(/a, /i, /i)", "/a[[/i, 0]]" }; int r = run(txt[k]);
  for(int rep = 0; rep < (k == 2 ? 2 : 1); rep++) for(int i = 0; i < ni; i++){ int x = (int32_t)I->a[i].bits, hit = 0; for(int j = 0; j < na; j++) if(!hit && x == j){ e[n++] = A->a[j]; hit = 1; } if(!hit) bad = 1; }
  if(k == 3){ if(na) e[n++] = A->a[0]; else bad = 1; }
  if(bad){ CHECK(r, "an index outside the list is an error"); unchanged(); done(); REACH("outside"); return; }
  CHECK(!r, "evaluates"); value_is(n, e); REACH("done");
}
/* indexing a blob gives its bytes */
void h_nth_blob(void){
  B.n = 2; A = &B.m[0]; I = &B.m[1]; mnum(A, "/a", 1, "b"); mnum(I, "/i", in_pick(1, 2), "i"); setup(); int r = run("/a[[/i]]"), bad = 0; g_arg e[2];
  for(int i = 0; i < I->n; i++){ int x = (int32_t)I->a[i].bits, hit = 0; for(int j = 0; j < A->a[0].len; j++) if(!hit && x == j){ memset(&e[i], 0, sizeof e[i]); e[i].tt = 'c'; e[i].bits = A->a[0].b[j]; hit = 1; } if(!hit) bad = 1; }
  if(bad){ CHECK(r, "an index outside the blob is an error"); unchanged(); done(); REACH("outside"); return; }
  CHECK(!r, "evaluates"); value_is(I->n, e); REACH("done");
}
static int num(const g_arg *x){ return x->tt != 's'; }
static int cmp(const g_arg *x, const g_arg *y){ /* the order of sort: numbers by value, then strings */
  if(num(x) && num(y)) return (rd(x) > rd(y)) - (rd(x) < rd(y)); if(num(x)) return -1; if(num(y)) return 1;
  int n = x->len < y->len ? x->len : y->len; for(int i = 0; i <= n; i++){ int c = i < x->len ? x->b[i] : 0, d = i < y->len ? y->b[i] : 0; if(c != d) return c < d ? -1 : 1; } return 0;
}
static int le(const g_arg *x, const g_arg *y){ return num(x) && num(y) ? rd(x) <= rd(y) : cmp(x, y) <= 0; }
static int same(const g_arg *x, const g_arg *y){ return x->tt == y->tt && (x->tt == 's' ? x->len == y->len && vh_same(x->b, y->b, x->len) : x->bits == y->bits); }
static void no_nan(g_msg *m){ for(int i = 0; i < m->n; i++) if(m->a[i].tt == 'd'){ double d = u2d(m->a[i].bits); ASSUME(d == d); } else if(m->a[i].tt == 'f'){ float d = u2f((uint32_t)m->a[i].bits); ASSUME(d == d); } }
#ifndef ST
#define ST "id"
#endif
void h_sort(void){
  int na = in_pick(0, LA); lists(na, ST, 0, "i", 0); no_nan(A); int k = in_pick(0, 1), r = run(k ? "sortidx(/a)" : "sort(/a)"); CHECK(!r, "evaluates"); CHECK((out ? osc_atom_array_u_getLen(out) : 0) == na, "as many elements");
  g_arg o[LA + 1]; int used = 0;
  for(int i = 0; i < na; i++){ t_osc_atom_u *u = osc_atom_array_u_get(out, i); int hit = 0;
    if(k){ CHECK(osc_atom_u_getTypetag(u) == 'i', "indexes"); int x = osc_atom_u_getInt32(u); for(int j = 0; j < na; j++) if(x == j && !(used >> j & 1)){ used |= 1 << j; o[i] = A->a[j]; hit = 1; break; } }
    else for(int j = 0; j < na; j++) if(!(used >> j & 1) && g_eq_u(u, &A->a[j])){ used |= 1 << j; o[i] = A->a[j]; hit = 1; break; }
    CHECK(hit, "a rearrangement of the list"); }
  for(int i = 0; i + 1 < na; i++) CHECK(le(&o[i], &o[i + 1]), "in order"); unchanged(); done(); REACH("done");
}
/* least, greatest */
void h_minmax(void){
  int na = in_pick(1, LA), k = in_pick(0, 2); lists(na, TYPES, 0, "i", 0); no_nan(A); int r = run(k == 0 ? "min(/a)" : k == 1 ? "max(/a)" : "extrema(/a)"); CHECK(!r && out && osc_atom_array_u_getLen(out) == (k == 2 ? 2 : 1), "evaluates");
  for(int w = 0; w < (k == 2 ? 2 : 1); w++){ int up = k == 1 || w == 1, ok = 0; t_osc_atom_u *u = osc_atom_array_u_get(out, w);
    for(int i = 0; i < na; i++){ int best = 1; for(int j = 0; j < na; j++) best &= up ? rd(&A->a[i]) >= rd(&A->a[j]) : rd(&A->a[i]) <= rd(&A->a[j]); if(best && g_eq_u(u, &A->a[i])) ok = 1; }
    CHECK(ok, "an element that no other passes"); }
  unchanged(); done(); REACH("done");
}
/* numeric summaries over values for which the result is exact */
#ifndef NTAB
#define NTAB 9
#endif
static void tab(g_arg *a, const char *types){
  static const double v[] = { 0, 1, 2, 3, -1, 65536, -70000, 2147483647, -2147483648.0, 0.5, -1.25 }; int q = in_pick(0, (int)strlen(types) - 1); memset(a, 0, sizeof *a); a->tt = types[q];
  double x = v[in_pick(0, a->tt == 'd' || a->tt == 'f' ? 10 : a->tt == 'i' || a->tt == 'h' ? 8 : a->tt == 'C' ? 3 : 4)];
  switch(a->tt){ case 'i': a->bits = (uint32_t)(int32_t)x; break; case 'h': a->bits = (uint64_t)((int64_t)x * 3); break; case 'd': a->bits = d2u(x); break; case 'f': a->bits = f2u((float)x); break; case 'c': a->bits = (uint8_t)(int8_t)x; break; case 'C': a->bits = (uint8_t)x; break; }
}
static int fits(double v, g_arg *e){ /* the value as the smallest of int32, uint32, int64, uint64 that holds it */
  memset(e, 0, sizeof *e); if(v >= -2147483648.0 && v <= 2147483647.0){ e->tt = 'i'; e->bits = (uint32_t)(int32_t)v; } else if(v > 0 && v <= 4294967295.0){ e->tt = 'I'; e->bits = (uint32_t)v; } else if(v >= -9223372036854775808.0 && v < 9223372036854775808.0){ e->tt = 'h'; e->bits = (uint64_t)(int64_t)v; } else if(v > 0 && v < 18446744073709551616.0){ e->tt = 'H'; e->bits = (uint64_t)v; } else *e = dbl(v); return 1;
}
#ifndef NUMT
#define NUMT "ihdC"
#endif
#ifdef ANY
#define element(x, t) g_arg_any(x, t)
#else
#define element(x, t) tab(x, t)
#endif
#ifndef KHI
#define KLO 0
#define KHI 9
#endif
void h_numeric(void){
  int k = in_pick(KLO, KHI), na = in_pick(0, LA), nb = k >= 8 ? in_pick(0, LA) : 0; memset(&B, 0, sizeof B); B.n = 2; A = &B.m[0]; Bm = &B.m[1]; strcpy(A->addr, "/a"); strcpy(Bm->addr, "/b"); A->alen = Bm->alen = 2; A->n = na; Bm->n = nb; for(int i = 0; i < na; i++) element(&A->a[i], NUMT); for(int i = 0; i < nb; i++) element(&Bm->a[i], NUMT); no_nan(A); no_nan(Bm); setup();
  static const char *txt[] = { "sum(/a)", "product(/a)", "mean(/a)", "avg(/a)", "median(/a)", "range(/a)", "sign(/a)", "nonzero(/a)", "dot(/a, /b)", "sum(list(/a, /b))" }; int r = run(txt[k]); g_arg *a = A->a, e[G_MAXARG]; int n = 0, f = 0; double s = 0, p = 1, lo = 0, hi = 0;
  for(int i = 0; i < na; i++){ double x = rd(&a[i]); if(isf(a[i].tt)) f = 1; s += x; p *= x; if(!i || x < lo) lo = x; if(!i || x > hi) hi = x; }
  if(!na && k >= 2 && k <= 5){ done(); unchanged(); REACH("empty"); return; } /* no value is defined; only safety is required */
  CHECK(!r, "evaluates");
  switch(k){
  case 9: for(int i = 0; i < nb; i++){ s += rd(&Bm->a[i]); if(isf(Bm->a[i].tt)) f = 1; } /* fall through */
  case 0: if(f) e[0] = dbl(s); else fits(s, &e[0]); n = 1; break;
  case 1: if(f) e[0] = dbl(p); else fits(p, &e[0]); n = 1; break;
  case 2: case 3: e[0] = dbl(s / na); n = 1; break;
  case 4: { double t[LA]; for(int i = 0; i < na; i++){ int j = i; double x = rd(&a[i]); while(j > 0 && t[j - 1] > x){ t[j] = t[j - 1]; j--; } t[j] = x; } e[0] = dbl(na % 2 ? t[na / 2] : (t[na / 2 - 1] + t[na / 2]) / 2); n = 1; break; }
  case 5: { f = 0; int lof = 0, hif = 0, loi = 0, hii = 0; for(int i = 0; i < na; i++){ if(rd(&a[i]) == lo){ if(isf(a[i].tt)) lof = 1; else loi = 1; } if(rd(&a[i]) == hi){ if(isf(a[i].tt)) hif = 1; else hii = 1; } }
      /* a tie between an integer and a float may take the type of either */
      g_arg x; fits(hi - lo, &x); t_osc_atom_u *u = out ? osc_atom_array_u_get(out, 0) : NULL; CHECK(u && ((!(loi && hii) ? 0 : g_eq_u(u, &x)) || ((lof || hif) && (e[0] = dbl(hi - lo), g_eq_u(u, &e[0])))), "the distance between the least and the greatest"); unchanged(); done(); REACH("done"); return; }
  case 6: for(int i = 0; i < na; i++) e[n++] = i32(rd(&a[i]) > 0 ? 1 : rd(&a[i]) < 0 ? -1 : 0); break;
  case 7: for(int i = 0; i < na; i++) if(rd(&a[i]) != 0) e[n++] = i32(i); break;
  case 8: s = 0; for(int i = 0; i < na && i < nb; i++) s += rd(&a[i]) * rd(&Bm->a[i]); e[0] = dbl(s); n = 1; break;
  }
  value_is(n, e); REACH("done");
}
#ifndef CT
#define CT "cCuUiIhHd"
#endif
/* running sums have the type of the widest element */
void h_cumsum(void){
  int na = in_pick(0, LA); lists(na, CT, 0, "i", 0); int r = run("cumsum(/a)"); CHECK(!r, "evaluates"); g_arg e[G_MAXARG]; char w = 0; for(int i = 0; i < na; i++){ char t = A->a[i].tt; if(!w || strchr("cCuUiIhHfd", t) > strchr("cCuUiIhHfd", w)) w = t; }
  uint64_t s = 0; double d = 0; for(int i = 0; i < na; i++){ memset(&e[i], 0, sizeof e[i]); e[i].tt = w; if(w == 'd'){ d += rd(&A->a[i]); e[i].bits = d2u(d); } else { s += (uint64_t)ri(&A->a[i]); e[i].bits = s; } }
  value_is(na, e); REACH("done");
}
/* sequences */
void h_seq(void){
  static const int st[] = { 0, 5, -3, 2147483644, -2147483645 }; int s = st[in_pick(0, 4)], d = in_pick(0, 6) - 3, step = in_pick(0, 5) - 3, fl = in_pick(0, 1), k = in_pick(0, 1); g_arg e[G_MAXARG]; int n = 0, bad = 0;
  B.n = 3; for(int i = 0; i < 3; i++){ char ad[3] = { '/', "abc"[i], 0 }; g_msg *m = &B.m[i]; memset(m, 0, sizeof *m); strcpy(m->addr, ad); m->alen = 2; m->n = 1; }
  double x = fl ? s + 0.5 : s, y = x + d, z = k ? step : d < 0 ? -1 : 1; B.m[0].a[0] = fl ? dbl(x) : i32(s); B.m[1].a[0] = fl ? dbl(y) : i32(s + d); B.m[2].a[0] = i32(step); setup();
  int r = run(k ? "aseq(/a, /b, /c)" : "aseq(/a, /b)");
  if(d == 0) e[n++] = B.m[0].a[0]; else if(z == 0 || (d > 0) != (z > 0)) bad = 1; else for(double v = x; z > 0 ? v <= y : v >= y; v += z) e[n++] = fl ? dbl(v) : i32((int32_t)v);
  A = &B.m[0]; if(bad){ CHECK(r, "a step of zero or of the wrong direction is an error"); unchanged(); done(); REACH("error"); return; }
  CHECK(!r, "evaluates"); value_is(n, e); REACH("done");
}
void h_nfill(void){
  int na = in_pick(0, LA), n = in_pick(0, 4) - 1; lists(na, LT, 0, "i", 0); char t[32]; sprintf(t, "nfill(%d, /a)", n); g_arg e[G_MAXARG]; int c = 0; int r = run(t); CHECK(!r, "evaluates"); for(int i = 0; i < n; i++) for(int j = 0; j < na; j++) e[c++] = A->a[j]; value_is(c, e); REACH("done");
}
VH_MAIN
