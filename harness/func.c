#define G_MAXARG 8
#include "expr.h"
#include "osc_expr_rec.h"
#include "osc_expr_rec.r"
#include "osc_expr_func.h"
/* every function of the table on every kind of argument list */
#ifndef FLO
#define FLO 0
#endif
#ifndef FHI
#define FHI 400
#endif
#ifndef NCLS
#define NCLS 10
#endif
#define NF ((int)(sizeof osc_expr_funcsym / sizeof *osc_expr_funcsym))
static int among(const char *n, const char *l){ int k = strlen(n); for(const char *p = l; (p = strstr(p, n)); p += k) if(p[-1] == ' ' && p[k] == ' ') return 1; return 0; }
static const double DV[8] = { 0, -2, 1e300, NAN, 1.5, -INFINITY, INFINITY, 64 }; static const int32_t IV[16] = { 0, -1, 1, INT32_MIN, INT32_MAX, 2, 3, 255, 60, 127, 4, 256, -100, 65536, 7, 8 };
static const char *SV[] = { "", "a", "a1", "2", "/a", "[a" };
/* numbers are a symbolic choice from a table of boundary values; with CONC the choice is split, which keeps formatted numbers concrete */
#ifdef CONC
static int pick8(uint8_t x){ ASSUME(x < CONC); return (int)vh_concretize(x); }
#else
#define pick8(x) (x)
#endif
static void one(g_msg *m, char t, int small){
  g_arg *a = &m->a[m->n++]; memset(a, 0, sizeof *a); a->tt = t; uint8_t x;
  switch(t){
  case '.': a->len = g_small_bundle(a->b); break;
  case 's': { const char *q = SV[in_pick(0, 5)]; a->len = strlen(q); memcpy(a->b, q, a->len + 1); break; }
  case 'i': x = in_u8(); ASSUME(x < 16); a->bits = small ? (uint32_t)(vh_concretize(x) % 5 - 1) : (uint32_t)IV[pick8(x)]; break;
  case 'h': x = in_u8(); ASSUME(x < 16); a->bits = (uint64_t)(int64_t)IV[pick8(x)]; break;
  case 'd': x = in_u8(); ASSUME(x < 8); a->bits = small ? d2u(vh_concretize(x) - 1.5) : d2u(DV[pick8(x)]); break;
  case 'f': x = in_u8(); ASSUME(x < 8); a->bits = f2u((float)DV[pick8(x)]); break;
  case 't': a->bits = (uint64_t[]){ 1, 0, 0xD00000007FFFFFFFull, ~0ull }[in_pick(0, 3)]; break;
#ifdef CONC
  case 'b': a->len = 4 * in_pick(0, 2); for(int i = 0; i < a->len; i++) a->b[i] = 40 + i; break;
#endif
  default: g_value(a);
  }
}
static void cls(g_msg *m, int c, int small){
  static const char *l[] = { "", "i", "d", "s", "b", ".", "t", "T", "is", "dd", "ss", "N", "h", "f" }; for(const char *p = l[c]; *p; p++) one(m, *p, small);
}
void h_func(void){
  int k = in_pick(FLO, FHI < NF - 1 ? FHI : NF - 1); const t_osc_expr_rec *R = &osc_expr_funcsym[k]; const char *nm = R->name; if(!nm || !((*nm >= 'a' && *nm <= 'z'))) return; if(!strcmp(nm, "lambda") || !strcmp(nm, "quote")) return;
  int lo = R->num_required_args, hi = R->num_optional_args < 0 ? lo + 1 : lo + R->num_optional_args, n = in_pick(lo, hi); if(n > 3) ASSUME(n <= 5);
  int small = among(nm, " nfill aseq "); B.n = n < 3 ? n : 3; char t[128]; int l = sprintf(t, "%s(", nm);
  for(int i = 0; i < n; i++){ l += sprintf(t + l, "%s/%c", i ? ", " : "", "abc"[i % 3]); }
  sprintf(t + l, ")");
  for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; memset(m, 0, sizeof *m); sprintf(m->addr, "/%c", "abc"[i]); m->alen = 2; cls(m, in_pick(0, NCLS - 1), small); }
  setup(); long live0 = vh_live(); t_osc_atom_ar_u *out = NULL; int r = ev(t, &L, &P, &out);
#ifdef VERB
  fprintf(stderr, "%s -> %d\n", t, r);
#endif
  long c = 0; CHECK(!osc_bundle_s_getMsgCount(L, P, &c), "the bundle stays well-formed");
  if(!among(nm, " assign assign_to_index delete assigntobundlemember settimetag ")) holds_bytes(&B, "the arguments and the bundle are unchanged");
  if(out && !r) for(int i = 0; i < osc_atom_array_u_getLen(out); i++){ t_osc_atom_u *a = osc_atom_array_u_get(out, i); CHECK(a && osc_atom_u_getTypetag(a), "every element of the value is an atom"); CHECK(osc_atom_u_sizeof(a) < 4096, "size"); }
  if(out) osc_atom_array_u_free(out);
  /* a text that does not parse leaves parts of the expression behind (not claimed, see DESIGN.md) */
  if(!among(nm, " eval ")) CHECK(r || vh_live() == live0, "no heap block is left");
  if(r) REACH("error"); else REACH("value");
}
VH_MAIN
