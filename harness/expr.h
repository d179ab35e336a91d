#ifndef EXPR_H
#define EXPR_H
#ifndef G_MAXMSG
#define G_MAXMSG 6
#endif
#ifndef WMAX
#define WMAX 1024
#endif
#include "gen.h"
#include "osc_expr.h"
#include "osc_expr_parser.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
static int quiet(void *context, const char * const s){
#ifdef VERB
 fprintf(stderr, "ERR %s\n", s);
#endif
 return 0; }
/* parse and evaluate a text the way users do; returns the status of the last evaluation, *out its value */
static int ev(const char *text, long *len, char **bndl, t_osc_atom_ar_u **out){
  char *t = g_heap(text, (int)strlen(text) + 1); t_osc_expr *f = NULL; int r = osc_expr_parser_parseExpr(t, &f, NULL); CHECK(!r && f, "the expression parses"); *out = NULL;
  for(t_osc_expr *e = f; e; e = osc_expr_next(e)){ if(*out) osc_atom_array_u_free(*out); *out = NULL; r = osc_expr_eval(e, len, bndl, out, NULL); if(r) break; }
  osc_expr_free(f); free(t); return r;
}
static g_bndl B; static unsigned char W[WMAX]; static long L; static char *P;
static void setup(void){ osc_error_setHandler(quiet); L = g_enc_bndl(W, &B); P = osc_mem_alloc(L); memcpy(P, W, L); }
static void mnum(g_msg *m, const char *addr, int n, const char *types){ strcpy(m->addr, addr); m->alen = strlen(addr); m->n = n; for(int i = 0; i < n; i++) g_arg_any(&m->a[i], types); }
/* the bundle is the messages of B in order followed by one with the given address and the atoms of the value */
static void expect(const char *addr, t_osc_atom_ar_u *out, int n, const g_arg *e){
  CHECK(out && osc_atom_array_u_getLen(out) == n, "length of the value"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(out, i), &e[i]), "element of the value");
  static g_bndl X; X = B; int k = -1; for(int i = 0; i < X.n; i++) if(!strcmp(X.m[i].addr, addr)) k = i; if(k < 0){ k = X.n++; memset(&X.m[k], 0, sizeof X.m[k]); strcpy(X.m[k].addr, addr); X.m[k].alen = strlen(addr); }
  X.m[k].n = n; for(int i = 0; i < n; i++) X.m[k].a[i] = e[i]; static unsigned char w[WMAX]; long l = g_enc_bndl(w, &X); CHECK(L == l && vh_same(P, w, l), "the bundle holds the value and nothing else changed");
}
/* reference arithmetic */
static const char RANK[] = "cCuUiIhH";
static int isf(char t){ return t == 'f' || t == 'd'; }
static double rd(const g_arg *a){ switch(a->tt){ case 'f': return u2f((uint32_t)a->bits); case 'd': return u2d(a->bits); case 'i': return (int32_t)a->bits; case 'I': return (uint32_t)a->bits; case 'h': return (int64_t)a->bits; case 'H': return a->bits; case 'c': return (int8_t)a->bits; case 'C': return (uint8_t)a->bits; case 'u': return (int16_t)a->bits; default: return (uint16_t)a->bits; } }
static int64_t ri(const g_arg *a){ switch(a->tt){ case 'i': return (int32_t)a->bits; case 'I': return (uint32_t)a->bits; case 'c': return (int8_t)a->bits; case 'C': return (uint8_t)a->bits; case 'u': return (int16_t)a->bits; case 'U': return (uint16_t)a->bits; default: return (int64_t)a->bits; } }
static char promoted(char x, char y){ if(isf(x) || isf(y)) return 'd'; return strchr(RANK, x) > strchr(RANK, y) ? x : y; }
static int dz;
static void arith(char op, const g_arg *x, const g_arg *y, g_arg *r){
  memset(r, 0, sizeof *r); r->tt = promoted(x->tt, y->tt); dz = 0;
  if(r->tt == 'd'){ double a = rd(x), b = rd(y); if(op == '/' && b == 0){ dz = 1; return; } r->bits = d2u(op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b); return; }
  int64_t a = ri(x), b = ri(y);
#define INT(T, UT) { T p = (T)a, q = (T)b; if(op == '/' && q == 0){ dz = 1; return; } T v; if(op == '+') v = (T)((UT)p + (UT)q); else if(op == '-') v = (T)((UT)p - (UT)q); else if(op == '*') v = (T)((UT)p * (UT)q); else if((T)-1 < 0 && q == (T)-1) v = (T)(0 - (UT)p); else v = p / q; r->bits = (UT)v; break; }
  switch(r->tt){ case 'c': INT(int8_t, uint8_t) case 'C': INT(uint8_t, uint8_t) case 'u': INT(int16_t, uint16_t) case 'U': INT(uint16_t, uint16_t) case 'i': INT(int32_t, uint32_t) case 'I': INT(uint32_t, uint32_t) case 'h': INT(int64_t, uint64_t) case 'H': INT(uint64_t, uint64_t) }
}
#ifndef NA
#define NA 2
#endif
#ifndef TYPES
#define TYPES "ifhdIHcCuU"
#endif
#ifndef NV
#define NV 1
#endif
#ifndef NM
#define NM 2
#endif
static int find(const g_bndl *b, const char *addr){ for(int i = 0; i < b->n; i++) if(!strcmp(b->m[i].addr, addr)) return i; return -1; }
static void put(g_bndl *b, const char *addr, int n, const g_arg *a){ int k = find(b, addr); if(k < 0){ k = b->n++; memset(&b->m[k], 0, sizeof b->m[k]); strcpy(b->m[k].addr, addr); b->m[k].alen = strlen(addr); } g_arg t[G_MAXARG]; for(int i = 0; i < n; i++) t[i] = a[i]; b->m[k].n = n; for(int i = 0; i < n; i++) b->m[k].a[i] = t[i]; }
static void drop(g_bndl *b, const char *addr){ int k = find(b, addr); if(k < 0) return; for(int i = k; i + 1 < b->n; i++) b->m[i] = b->m[i + 1]; b->n--; }
static g_arg i32(int v){ g_arg a; memset(&a, 0, sizeof a); a.tt = 'i'; a.bits = (uint32_t)v; return a; }
#ifndef VTYPES
#define VTYPES "ihfTNstb."
#endif
static void some_bundle(const char *types){
  static const char *ads[] = { "/t", "/s", "/tt", "/u" }; B.n = in_pick(0, NM);
  for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; int k = in_pick(0, 3); strcpy(m->addr, ads[k]); m->alen = strlen(ads[k]); for(int j = 0; j < i; j++) ASSUME(strcmp(B.m[j].addr, m->addr)); m->n = in_pick(0, NV); for(int j = 0; j < m->n; j++){ g_arg *a = &m->a[j]; int q = in_pick(0, (int)strlen(types) - 1); a->tt = types[q]; if(a->tt == '.'){ a->len = g_enc_header(a->b, 0); } else g_value(a); } }
}
static void holds_bytes(const g_bndl *X, const char *what){ static unsigned char w[WMAX]; long l = g_enc_bndl(w, X);
#ifdef VERB
for(int i=0;i<L;i++) fprintf(stderr,"%02x%s",(unsigned char)P[i],i%4==3?" ":""); fprintf(stderr,"\n"); for(int i=0;i<l;i++) fprintf(stderr,"%02x%s",w[i],i%4==3?" ":""); fprintf(stderr,"\n");
#endif
 CHECK(L == l && vh_same(P, w, l), what); }
#endif
