#define G_MAXARG 6
#include "gen.h"
#include "osc_legacy_parser.h"
/* P03: the parser of the older text form: lines of an address and arguments */
#ifndef PL
#define PL 4
#endif
#ifndef NT
#define NT 4
#endif
static int quiet(void *context, const char * const s){ (void)context; (void)s; return 0; }
static t_osc_bndl_u *parse(const char *text, int n){
  char *t = malloc(n + 1); memcpy(t, text, n); t[n] = 0; osc_error_setHandler(quiet); t_osc_bndl_u *b = NULL; long live0 = vh_live(); t_osc_err e = osc_legacy_parser_parseString(n, t, &b); CHECK(vh_same(t, text, n) && t[n] == 0, "the text is left alone"); free(t);
  if(e){ CHECK(b == NULL, "an error gives no bundle"); CHECK(vh_live() == live0 - 1, "an error leaves no heap block"); return NULL; }
  CHECK(b != NULL, "success gives a bundle"); return b;
}
static void well(const char *text, int n){
  long live0 = vh_live(); t_osc_bndl_u *b = parse(text, n); if(!b){ REACH("error"); return; } REACH("parsed");
  t_osc_bndl_s *s = osc_bundle_u_serialize(b); CHECK(s && osc_bundle_s_getLen(s) >= 16 && osc_error_bundleSanityCheck(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)) == OSC_ERR_NONE, "the parsed bundle serialises to a well-formed one"); if(s) osc_bundle_s_deepFree(s); osc_bundle_u_free(b); CHECK(vh_live() == live0, "parsing leaves no heap block but the bundle");
}
void h_any(void){ char t[PL + 1]; int n = in_pick(0, PL); for(int i = 0; i < n; i++){ t[i] = in_u8(); ASSUME(t[i]); } well(t, n); }
void h_value(void){ char t[PL + 8]; memcpy(t, "/a ", 3); int n = in_pick(1, PL); for(int i = 0; i < n; i++){ t[3 + i] = in_u8(); ASSUME(t[3 + i]); } t[3 + n] = '\n'; well(t, n + 4); }
static const char *TOK[] = { "/a", "1", "-12", "1.5", "\"s\"", "\"\\\"\"", "\"", "'c'", "[", "]", "\n", "true", "x", "x\\", "2001-01-01T00:00:00Z", "99999999999", ":", "," };
#define NTOK_ ((int)(sizeof TOK / sizeof *TOK))
void h_tokens(void){ char t[256]; int n = in_pick(0, NT), l = 0; for(int i = 0; i < n; i++){ int k = in_pick(0, NTOK_ - 1); int q = strlen(TOK[k]); memcpy(t + l, TOK[k], q); l += q; t[l++] = ' '; } if(in_pick(0, 1)) t[l++] = '\n'; well(t, l); }
void h_nested(void){ static const char *PRE[] = { "/a [/b ", "/a 1 [\n/b ", "/a [/c\n/b ", "/a [[" }; static const char *POST[] = { "\n]\n", "\n] 2\n", "\n]", "\n]]\n" };
  char t[256]; int p = in_pick(0, 3), n = in_pick(0, NT - 1), l = strlen(PRE[p]); memcpy(t, PRE[p], l); for(int i = 0; i < n; i++){ int k = in_pick(0, NTOK_ - 1); int q = strlen(TOK[k]); memcpy(t + l, TOK[k], q); l += q; t[l++] = ' '; } int q = strlen(POST[p]); memcpy(t + l, POST[p], q); l += q; well(t, l); }
/* what every form of argument means */
static g_bndl B; static char T[1024]; static int tl;
static void put(const char *s){ strcpy(T + tl, s); tl += strlen(s); }
static void word(g_arg *a, const char *s){ a->tt = 's'; a->len = strlen(s); strcpy((char *)a->b, s); }
static void value(g_arg *a, int nest){
  memset(a, 0, 16); switch(in_pick(0, nest ? 12 : 11)){
  case 0: { static const struct { const char *t; int64_t v; } I[] = { { "0", 0 }, { "7", 7 }, { "-12", -12 }, { "2147483647", 2147483647 }, { "-2147483648", -2147483648ll }, { "2147483648", 2147483648ll }, { "-99999999999", -99999999999ll }, { "9223372036854775807", INT64_MAX } }; int k = in_pick(0, 7); put(I[k].t); a->tt = k < 5 ? 'i' : 'h'; a->bits = k < 5 ? (uint32_t)I[k].v : (uint64_t)I[k].v; break; }
  case 1: { static const struct { const char *t; double v; } D[] = { { "1.5", 1.5 }, { "-.25", -0.25 }, { "2.", 2 }, { "1e3", 1000 } }; int k = in_pick(0, 3); put(D[k].t); a->tt = 'd'; a->bits = d2u(D[k].v); break; }
  case 2: { a->tt = 's'; put("\""); int n = in_pick(0, 3); for(int i = 0; i < n; i++){ char c = (char)in_u8(); ASSUME(c); c = c == '"' ? '"' : c == '\\' ? '\\' : c; if(c == '"' || c == '\\') T[tl++] = '\\'; T[tl++] = c; a->b[a->len++] = c; } a->b[a->len] = 0; T[tl] = 0; put("\""); break; }
  case 3: { a->tt = 'c'; put("'"); char c = (char)in_u8(); ASSUME(c > 31 && c < 127); T[tl++] = c; T[tl] = 0; a->bits = (uint8_t)c; put("'"); break; }
  case 4: put("true"); a->tt = 'T'; break; case 5: put("False"); a->tt = 'F'; break;
  case 6: put("foo"); word(a, "foo"); break; case 7: put("/x/y"); word(a, "/x/y"); break; case 8: put("2001-02-03T04:05:06Z"); a->tt = 't'; break;
  case 9: put("a\\,b"); word(a, "a,b"); break; case 10: put("x\\ y\\:z"); word(a, "x y:z"); break; case 11: put("truex"); word(a, "truex"); break;
  case 12: { static g_bndl N; N.n = 1; N.tt = 0; g_msg *m = &N.m[0]; strcpy(m->addr, "/n"); m->alen = 2; m->n = in_pick(0, 1); memset(&m->a[0], 0, 16); m->a[0].tt = 'i'; m->a[0].bits = 5; put(in_pick(0, 1) ? "[\n/n" : "[/n"); put(m->n ? " 5\n]" : "\n]"); a->tt = '.'; a->len = g_enc_bndl(a->b, &N); break; }
  }
}
void h_lines(void){
  long live0 = vh_live(); B.n = in_pick(0, 2); B.tt = 0; tl = 0; T[0] = 0; int sp = in_pick(0, 1), two = B.n == 2; for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; strcpy(m->addr, i ? "/b/c" : "/a"); m->alen = strlen(m->addr); put(m->addr); m->n = two ? in_pick(0, 1) : in_pick(0, 2); for(int j = 0; j < m->n; j++){ put(sp ? " " : "\t "); value(&m->a[j], i == 0); } put(sp ? "\n" : " \n\n"); }
  t_osc_bndl_u *p = parse(T, tl); CHECK(p != NULL, "the text is parsed"); CHECK(osc_bundle_u_getMsgCount(p) == B.n, "a message for every line"); t_osc_bndl_it_u *it = osc_bndl_it_u_get(p);
  for(int i = 0; i < B.n && osc_bndl_it_u_hasNext(it); i++){ t_osc_msg_u *m = osc_bndl_it_u_next(it); CHECK(g_str_eq(osc_message_u_getAddress(m), B.m[i].addr), "the address"); CHECK(osc_message_u_getArgCount(m) == B.m[i].n, "as many arguments as were written"); for(int j = 0; j < B.m[i].n; j++){ g_arg *o = &B.m[i].a[j]; t_osc_atom_u *x = osc_message_u_getArg(m, j); CHECK(x && (o->tt == 't' ? osc_atom_u_getTypetag(x) == 't' && g_ttbits(osc_atom_u_getTimetag(x)) == 0xbe2601f200000000ull : g_eq_u(x, o)), "the argument"); } }
  osc_bndl_it_u_destroy(it); osc_bundle_u_free(p); CHECK(vh_live() == live0, "parsing leaves no heap block but the bundle"); REACH("done");
}
VH_MAIN
