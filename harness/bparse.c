#include "gen.h"
#include "osc_parser.h"
#ifndef PL
#define PL 3
#endif
static int quiet(void *context, const char * const s){ (void)context; (void)s; return 0; }
#ifdef VERB
#define VHP(...) fprintf(stderr, __VA_ARGS__)
#else
#define VHP(...) (void)0
#endif
/* P01 */
static void parse(const char *text, int n){
  char *t = malloc(n + 1); memcpy(t, text, n); t[n] = 0; osc_error_setHandler(quiet); t_osc_bndl_u *b = NULL; long live0 = vh_live(); t_osc_err e = osc_parser_parseString(n, t, &b);
  CHECK(vh_same(t, text, n) && t[n] == 0, "the text is left alone");
  if(e) REACH("error"); else { REACH("parsed"); CHECK(b != NULL, "success gives a bundle"); if(b){ t_osc_bndl_s *s = osc_bundle_u_serialize(b); CHECK(s && osc_bundle_s_getLen(s) >= 16 && osc_error_bundleSanityCheck(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)) == OSC_ERR_NONE, "the parsed bundle serialises to a well-formed one"); if(s) osc_bundle_s_deepFree(s); osc_bundle_u_free(b); CHECK(vh_live() == live0, "parsing leaves no heap block but the bundle"); } }
  free(t);
}
void h_text_any(void){ char t[PL + 1]; int n = in_pick(0, PL); for(int i = 0; i < n; i++){ t[i] = in_u8(); ASSUME(t[i]); } parse(t, n); }
/* any value: a message with an address and any text behind it */
void h_text_value(void){ char t[PL + 8]; memcpy(t, "/a:", 3); int n = in_pick(1, PL); for(int i = 0; i < n; i++){ t[3 + i] = in_u8(); ASSUME(t[3 + i]); } parse(t, n + 3); }
static const char *TOK[] = { "/a", "/b,", ":", "1", "-12", "1.5", "\"s\"", "\"\\\"\"", "\"", "'c'", ",", "[", "]", "{", "}", "true", "nil", "0x1F", "2001-01-01T00:00:00Z", "#", "x", "99999999999999999999" };
#define NTOK_ ((int)(sizeof TOK / sizeof *TOK))
#ifndef NT
#define NT 4
#endif
void h_text_tokens(void){
  char t[256]; int n = in_pick(0, NT), l = 0; for(int i = 0; i < n; i++){ int k = in_pick(0, NTOK_ - 1); int q = strlen(TOK[k]); memcpy(t + l, TOK[k], q); l += q; t[l++] = ' '; }
  parse(t, l);
}
/* the same after a message and a colon, and in a list */
void h_text_list(void){
  static const char *PRE[] = { "/a : ", "/a : [", "/a : {", "/a : [1, {" }; static const char *POST[] = { "", "]", "}", "}]" };
  char t[256]; int p = in_pick(0, 3), n = in_pick(0, NT - 1), l = strlen(PRE[p]); memcpy(t, PRE[p], l); for(int i = 0; i < n; i++){ int k = in_pick(0, NTOK_ - 1); int q = strlen(TOK[k]); memcpy(t + l, TOK[k], q); l += q; t[l++] = ' '; } int q = strlen(POST[p]); memcpy(t + l, POST[p], q); l += q;
  parse(t, l);
}
/* a string of plain and escaped characters, closed or not; the last of them is any byte */
void h_text_string(void){
  static const char C[] = "a\""; char t[64]; int n = in_pick(1, NT), l = 0, esc = 0; memcpy(t, "/a:\"", 4); l = 4; for(int i = 0; i < n; i++){ if(in_pick(0, 1)){ t[l++] = '\\'; esc++; } if(i == n - 1){ t[l] = in_u8(); ASSUME(t[l]); l++; } else t[l++] = C[in_pick(0, 1)]; } if(in_pick(0, 1)) t[l++] = '"';
  parse(t, l); if(esc > 1) REACH("escapes");
}
/* P02 */
#ifndef NARGS
#define NARGS 2
#endif
#ifndef NMSG
#define NMSG 2
#endif
/* doubles that the text preserves, each with the bits of a double */
static const double FV[] = { 0, 1, -1.5, 0.25, 999999, 1000000, -1e6, 1e20, -2.5e-7, 12345, 0.1, 1e-300, -100000 };
static const uint64_t TV[] = { 0x83aa7e8000000000ull, 0xd2345678c0000000ull, 0x0000000180000000ull, 0xe000000040000000ull };
/* integers near the borders of their types and of the number of digits */
static void integer(g_arg *a){
  static const uint64_t BASE[] = { (uint64_t)-4, 96, (uint64_t)-102, 32764, 65532, (uint64_t)-32768, 0x7ffffffc, 0x80000000, (uint64_t)-0x80000000ll, 0xfffffff8, 1000000000, (uint64_t)-1000000000ll }; unsigned d = in_u8(); ASSUME(d < 8); a->bits = BASE[in_pick(0, 11)] + d;
  if(a->tt == 'u' || a->tt == 'U') a->bits &= 0xffff; else a->bits &= 0xffffffff;
}
static void val(g_arg *a, const char *types){
  a->tt = types[in_pick(0, (int)strlen(types) - 1)]; if(a->tt == '.') g_nested(a); else g_value(a);
  if(strchr("iIuU", a->tt)) integer(a);
  if(a->tt == 'd') a->bits = d2u(FV[in_pick(0, 12)]); else if(a->tt == 't') a->bits = TV[in_pick(0, 3)]; else if(a->tt == 'c' || a->tt == 'C') ASSUME((a->bits & 127) == a->bits && a->bits != 0 && a->bits != '\n'); else if(a->tt == '.' && a->len > 16) ASSUME(rd32(a->b + 28) < 10);
}
/* the number that is written for an integer */
static int64_t ival(const g_arg *a){ switch(a->tt){ case 'i': return (int32_t)a->bits; case 'I': return (uint32_t)a->bits; case 'u': return (int16_t)a->bits; case 'U': return (uint16_t)a->bits; default: return (int64_t)a->bits; } }
/* the argument as it comes back */
static void back(g_arg *o, const g_arg *a){
  *o = *a; if(strchr("iIhuU", a->tt)){ int64_t v = ival(a); if(v >= INT32_MIN && v <= INT32_MAX){ o->tt = 'i'; o->bits = (uint32_t)v; } else { o->tt = 'h'; o->bits = (uint64_t)v; } }
  else if(a->tt == 'H'){ if(a->bits <= INT32_MAX) o->tt = 'i'; else if(a->bits <= INT64_MAX) o->tt = 'h'; }
  else if(a->tt == 'C') o->tt = 'c';
}
/* the same second, and the fraction to the microsecond */
static int same_time(t_osc_atom_u *x, uint64_t bits){ if(osc_atom_u_getTypetag(x) != 't') return 0; uint64_t b = g_ttbits(osc_atom_u_getTimetag(x)), d = b > bits ? b - bits : bits - b; return b >> 32 == bits >> 32 && d < 4295; }
static void check_back(t_osc_bndl_u *p, g_bndl *b){
  CHECK(p && osc_bundle_u_getMsgCount(p) == b->n, "as many messages as were written"); t_osc_bndl_it_u *it = osc_bndl_it_u_get(p);
  for(int i = 0; i < b->n && osc_bndl_it_u_hasNext(it); i++){ t_osc_msg_u *m = osc_bndl_it_u_next(it); CHECK(g_str_eq(osc_message_u_getAddress(m), b->m[i].addr), "the address comes back"); CHECK(osc_message_u_getArgCount(m) == b->m[i].n, "as many arguments as were written");
    for(int j = 0; j < b->m[i].n; j++){ g_arg o; back(&o, &b->m[i].a[j]); t_osc_atom_u *x = osc_message_u_getArg(m, j); CHECK(x && (o.tt == 't' ? same_time(x, o.bits) : g_eq_u(x, &o)), "the argument comes back"); } }
  osc_bndl_it_u_destroy(it);
}
static g_bndl B;
static void roundtrip(void){
  osc_error_setHandler(quiet); t_osc_bndl_u *u = g_build_bndl(&B), *p = NULL; int serial = in_pick(0, 1); char *t;
  if(serial){ t_osc_bndl_s *s = osc_bundle_u_serialize(u); t = osc_bundle_s_format(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)); osc_bundle_s_deepFree(s); } else t = osc_bundle_u_format(u);
  VHP("text <%s>\n", t); t_osc_err e = osc_parser_parseString(strlen(t), t, &p); CHECK(e == OSC_ERR_NONE && p, "formatted text parses"); if(p) check_back(p, &B); REACH("done"); osc_mem_free(t); osc_bundle_u_free(u); if(p) osc_bundle_u_free(p);
}
/* one argument with every value */
#ifndef TYPES
#define TYPES "iIuUcCTFNstd."
#endif
void h_back_arg(void){ memset(&B, 0, sizeof B); B.n = 1; g_msg *m = &B.m[0]; strcpy(m->addr, "/a"); m->alen = 2; m->n = 1; val(&m->a[0], TYPES); roundtrip(); }
/* integers of 64 bits: around the borders of the types, and powers of ten */
void h_back_wide(void){
  static const uint64_t W[] = { 0, 1, 9, 10, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffffffffffff, 0xffffffff80000000, 0xffffffff7fffffff, 10000000000000000000ull, 1000000000000ull, 0xfffffffffffffff6 };
  memset(&B, 0, sizeof B); B.n = 1; g_msg *m = &B.m[0]; strcpy(m->addr, "/a"); m->alen = 2; m->n = 1; m->a[0].tt = "hH"[in_pick(0, 1)]; m->a[0].bits = W[in_pick(0, 17)]; roundtrip();
}
/* several messages and arguments */
void h_back_bndl(void){
  memset(&B, 0, sizeof B); B.n = in_pick(1, NMSG); for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; m->alen = g_addr_chars(m->addr, 2, i ? 2 : 3, 1); for(int q = 1; q < m->alen; q++) ASSUME(m->addr[q] != '#'); ASSUME(m->addr[m->alen - 1] != ','); m->n = in_pick(0, i ? 1 : NARGS); for(int j = 0; j < m->n; j++){ val(&m->a[j], i ? "s" : "TN.sc"); } }
  roundtrip();
}
/* bundles in bundles, with messages behind them */
void h_back_nest(void){
  memset(&B, 0, sizeof B); g_bndl *q = calloc(1, sizeof *q); q->n = in_pick(0, 2); for(int i = 0; i < q->n; i++){ g_msg *m = &q->m[i]; m->alen = g_addr_chars(m->addr, 2, 2, 1); ASSUME(m->addr[1] != '#' && m->addr[1] != ','); m->n = in_pick(0, 1); for(int j = 0; j < m->n; j++){ val(&m->a[j], i ? "T" : ".s"); } }
  B.n = in_pick(1, NMSG); for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; strcpy(m->addr, i ? "/y" : "/x"); m->alen = 2; m->n = in_pick(0, 2); for(int j = 0; j < m->n; j++){ if(in_pick(0, 1)){ unsigned char w[512]; int l = g_enc_bndl(w, q); ASSUME(l <= 64); m->a[j].tt = '.'; m->a[j].len = l; memcpy(m->a[j].b, w, l); } else val(&m->a[j], "F"); } }
  free(q); roundtrip();
}
/* literals */
static t_osc_atom_u *lit(const char *l, t_osc_bndl_u **p){ char *t = malloc(64); int n = snprintf(t, 64, "/a : %s", l); osc_error_setHandler(quiet); *p = NULL; t_osc_err e = osc_parser_parseString(n, t, p); free(t); CHECK(e == OSC_ERR_NONE && *p, "a literal parses"); t_osc_bndl_it_u *it = osc_bndl_it_u_get(*p); t_osc_msg_u *m = osc_bndl_it_u_next(it); osc_bndl_it_u_destroy(it); CHECK(osc_message_u_getArgCount(m) == 1, "one value"); return osc_message_u_getArg(m, 0); }
#ifndef DIG
#define DIG 3
#endif
void h_literal(void){
  char l[32]; int n = 0; t_osc_bndl_u *p; g_arg o; memset(&o, 0, sizeof o); int kind = in_pick(0, 3);
  if(kind == 0){ /* decimal digits with or without sign, some of them after a common prefix */
    static const char *PRE[] = { "", "214748364", "922337203685477580", "1844674407370955161" }; static const int MAXD[] = { DIG, 1, 1, 0 }; int k = in_pick(0, 3), neg = k < 3 ? in_pick(0, 1) : 0; unsigned long long v = 0; n = snprintf(l, 32, "%s%s", neg ? "-" : "", PRE[k]); for(const char *c = PRE[k]; *c; c++) v = v * 10 + (*c - '0');
    int d = k == 3 ? in_pick(0, 1) : in_pick(1, MAXD[k]); for(int i = 0; i < d; i++){ int x = in_pick(0, 9); if(k == 0 && !i) ASSUME(x != 0); if(k == 2) ASSUME(x < 8); if(k == 3) ASSUME(x < 6); l[n++] = '0' + x; v = v * 10 + x; } l[n] = 0;
    uint64_t w = neg ? 0 - (uint64_t)v : v; if(!neg && v > INT64_MAX) o.tt = 'H'; else if((int64_t)w >= INT32_MIN && (int64_t)w <= INT32_MAX){ o.tt = 'i'; w = (uint32_t)w; } else o.tt = 'h'; o.bits = w; REACH("decimal");
  }else if(kind == 1){ int d = in_pick(1, 3), long_ = in_pick(0, 1); uint64_t v = long_ ? 0x123456789ull : 0; n = snprintf(l, 32, long_ ? "0x123456789" : "0%c", in_pick(0, 1) ? 'x' : 'X'); for(int i = 0; i < d; i++){ int x = in_pick(0, 15); l[n++] = (in_pick(0, 1) ? "0123456789abcdef" : "0123456789ABCDEF")[x]; v = v * 16 + x; } l[n] = 0; o.tt = long_ ? 'H' : 'I'; o.bits = v; REACH("hex"); }
  else if(kind == 2){ int a = in_pick(0, 99), b = in_pick(0, 1), e = in_pick(0, 2), neg = in_pick(0, 1); n = snprintf(l, 32, "%s%d.%s%s", neg ? "-" : "", a, b ? "5" : "", e == 0 ? "" : e == 1 ? "e2" : "e-1"); double v = a + (b ? 0.5 : 0); if(e == 1) v = v * 100; else if(e == 2) v = v / 10; o.tt = 'd'; o.bits = d2u(neg ? -v : v); REACH("float"); }
  else { int k = in_pick(0, 3); strcpy(l, k == 0 ? "true" : k == 1 ? "false" : k == 2 ? "nil" : "0"); o.tt = "TFNi"[k]; REACH("word"); }
  t_osc_atom_u *x = lit(l, &p); CHECK(x && g_eq_u(x, &o), "the value of a literal"); osc_bundle_u_free(p);
}
VH_MAIN
