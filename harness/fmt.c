#include "gen.h"
#ifndef NARGS
#define NARGS 2
#endif
/* concrete floating-point values (formatting them is a table lookup for the solver) */
static const double FV[] = { 0, 1, -1.5, 0.1, 999999, 1000000, -1e6, 123456.789, 1e20, -2.5e-7, INFINITY, NAN, 3e38, -0.0 };
#ifndef NTV
#define NTV 1
#endif
static const uint64_t TV[] = { 1, 0x00000e8000000001ull, 0x83aa7e8000000000ull, 0xd2345678c0000000ull };
static void val(g_arg *a, const char *types){
  int k = in_pick(0, (int)strlen(types) - 1); a->tt = types[k];
  if(a->tt == '.') g_nested(a); else g_value(a);
  if(a->tt == 'b') for(int i = 1; i < a->len; i++) ASSUME((signed char)a->b[i] >= 0 && a->b[i] < 10);
  if(a->tt == 'f') a->bits = f2u((float)FV[in_pick(0, 13)]); else if(a->tt == 'd') a->bits = d2u(FV[in_pick(0, 13)]); else if(a->tt == 't') a->bits = TV[in_pick(0, NTV)];
}
/* the same with integers of one or two digits, or the smallest */
static void small(g_arg *a, const char *types){
  val(a, types); if(a->tt == '.' && a->len > 16) ASSUME(rd32(a->b + 28) < 10); if(a->tt == 'b' && a->len) ASSUME(a->b[0] > 127 - 28 && a->b[0] < 128); if(!strchr("ihuIHU", a->tt)) return;
  int k = in_pick(0, 2), sg = strchr("ihu", a->tt) != NULL, bits = a->tt == 'i' || a->tt == 'I' ? 32 : a->tt == 'h' || a->tt == 'H' ? 64 : 16; uint64_t max = bits == 64 ? ~0ull : (1ull << bits) - 1;
  if(k == 0) a->bits = 7; else if(k == 1) a->bits = sg ? (max >> 1) + 1 : max; else a->bits = sg ? max : 10;
}
/* reference text */
static char REF[2048]; static int rl;
static void out(const char *s){ while(*s) REF[rl++] = *s++; REF[rl] = 0; }
static void outd(double d){ rl += snprintf(REF + rl, 64, "%g", d); if(d - floor(d) == 0 && d > -1000000. && d < 1000000.) out("."); }
static void ref_bytes(const unsigned char *p, int len, int ind);
static void ref_atom(const g_arg *a, int ind){
  switch(a->tt){
  case 'i': rl += snprintf(REF + rl, 64, "%" PRId32, (int32_t)a->bits); break;
  case 'I': rl += snprintf(REF + rl, 64, "%" PRIu32, (uint32_t)a->bits); break;
  case 'h': rl += snprintf(REF + rl, 64, "%" PRId64, (int64_t)a->bits); break;
  case 'H': rl += snprintf(REF + rl, 64, "%" PRIu64, a->bits); break;
  case 'u': rl += snprintf(REF + rl, 64, "%" PRId16, (int16_t)a->bits); break;
  case 'U': rl += snprintf(REF + rl, 64, "%" PRIu16, (uint16_t)a->bits); break;
  case 'c': case 'C': REF[rl++] = '\''; REF[rl++] = (char)a->bits; REF[rl++] = '\''; break;
  case 'f': outd(u2f((uint32_t)a->bits)); break;
  case 'd': outd(u2d(a->bits)); break;
  case 'T': out("true"); break; case 'F': out("false"); break; case 'N': out("nil"); break;
  case 't': rl += osc_timetag_nformat(REF + rl, 64, g_tt(a->bits)); break;
  case 's': REF[rl++] = '"'; for(int i = 0; i < a->len; i++){ if(a->b[i] == '"' || a->b[i] == '\\') REF[rl++] = '\\'; REF[rl++] = a->b[i]; } REF[rl++] = '"'; break;
  case 'b': out("blob("); for(int i = 0; i < a->len; i++) rl += snprintf(REF + rl, 64, i ? ", %d" : "%d", (int)(signed char)a->b[i]); out(")"); break;
  case '.': out("{\n"); ref_bytes(a->b, a->len, ind + 1); out("\n"); for(int i = 0; i < ind; i++) for(int q = 0; q < OSC_SUBBUNDLE_INDENT; q++) out(" "); out("}"); break;
  }
}
static void ref_msg(const g_msg *m, int ind){
  for(int i = 0; i < ind; i++) for(int q = 0; q < OSC_SUBBUNDLE_INDENT; q++) out(" "); out(m->addr); if(m->n) out(" : "); if(m->n > 1) out("[");
  for(int i = 0; i < m->n; i++){ if(i) out(", "); ref_atom(&m->a[i], ind); } if(m->n > 1) out("]");
}
/* nested payloads are the small bundle of gen.h: one message /n with one integer */
static void ref_bytes(const unsigned char *p, int len, int ind){ if(len <= 16) return; static g_msg m; memset(&m, 0, sizeof m); strcpy(m.addr, "/n"); m.alen = 2; m.n = 1; m.a[0].tt = 'i'; m.a[0].bits = rd32(p + 28); ref_msg(&m, ind); }
/* a formatter with a buffer of every size */
#ifndef NMAX
#define NMAX 8
#endif
/* small buffers, and those around the size that just fits */
static int pickn(void){ int lo = rl - 2 < NMAX ? NMAX : rl - 2, n = in_pick(0, NMAX + 4); return n < NMAX ? (n < rl + 2 ? n : rl + 2) : lo + n - NMAX; }
#define BOUNDED(call0, calln, what) do{ \
  int full = (int)(call0); CHECK(full == rl, "announced length of the text (" what ")"); \
  int n = pickn(); char *buf = malloc(n ? n : 1); buf[0] = 'Z'; \
  int r = (int)(calln); CHECK(r == rl, "returned length of the text (" what ")"); \
  if(n > rl){ CHECK(vh_same(buf, REF, rl) && buf[rl] == 0, "text (" what ")"); REACH("fits"); } \
  else if(n > 0){ CHECK(vh_same(buf, REF, n - 1) && buf[n - 1] == 0, "the part of the text that fits, terminated (" what ")"); REACH("short"); } \
  else CHECK(buf[0] == 'Z', "nothing is written to a buffer of no size (" what ")"); free(buf); }while(0)
#ifndef TYPES
#define TYPES "ifhdIHcCuUTFNstb."
#endif
static g_msg G; static g_bndl B;
static t_osc_atom_u *mku(g_arg *a){ t_osc_atom_u *x = osc_atom_u_alloc(); g_set(x, a); return x; }
/* F01: atoms in either form */
void h_fmt_atom(void){
  g_arg *a = &G.a[0]; val(a, TYPES); int ind = a->tt == '.' ? in_pick(0, 2) : 0; ref_atom(a, ind); long live0 = vh_live(); unsigned char w[80]; int wl = g_enc_arg(w, a); char *wire = g_heap(w, wl);
  t_osc_atom_u *u = mku(a); t_osc_atom_s *s = osc_atom_s_alloc(a->tt, wire);
  switch(in_pick(0, 3)){
  case 0: BOUNDED(osc_atom_u_nformat(NULL, 0, u, ind), osc_atom_u_nformat(buf, n, u, ind), "atom"); break;
  case 1: BOUNDED(osc_atom_s_nformat(NULL, 0, s, ind), osc_atom_s_nformat(buf, n, s, ind), "serialised atom"); break;
  case 2: if(!ind){ CHECK(osc_atom_u_getFormattedSize(u) == rl, "formatted size"); char *t = osc_atom_u_format(u); CHECK(t && vh_same(t, REF, rl) && t[rl] == 0, "allocated text"); osc_mem_free(t); } break;
  case 3: if(!ind){ CHECK(osc_atom_s_getFormattedSize(s) == rl, "formatted size"); char *t = osc_atom_s_format(s); CHECK(t && vh_same(t, REF, rl) && t[rl] == 0, "allocated text"); osc_mem_free(t); } break;
  }
  osc_atom_u_free(u); osc_atom_s_free(s); osc_mem_free(wire); CHECK(vh_live() == live0, "no heap block is left");
}
/* F01: the plain string value of an atom (as nformat, but strings are neither quoted nor escaped) */
void h_fmt_getstring(void){
  g_arg *a = &G.a[0]; val(a, "ifhdIHcCuUTFNtbs."); if(a->tt == 's'){ memcpy(REF, a->b, a->len); rl = a->len; } else if(a->tt != '.') ref_atom(a, 0); long live0 = vh_live(); unsigned char w[80]; int wl = g_enc_arg(w, a); char *wire = g_heap(w, wl);
  t_osc_atom_u *u = mku(a); t_osc_atom_s *s = osc_atom_s_alloc(a->tt, wire); int un = in_pick(0, 1), len = un ? osc_atom_u_getStringLen(u) : osc_atom_s_getStringLen(s); CHECK(len == rl, "announced length of the string value");
  if(in_pick(0, 1)){ char *t = NULL; int r = un ? osc_atom_u_getString(u, 0, &t) : osc_atom_s_getString(s, 0, &t); CHECK(r == rl && t && vh_same(t, REF, rl) && t[rl] == 0, "allocated string value"); osc_mem_free(t); REACH("alloc"); }
  else { int n = in_pick(0, rl + 2); char *t = malloc(n ? n : 1), *p = t; int r = un ? osc_atom_u_getString(u, n, &p) : osc_atom_s_getString(s, n, &p); CHECK(r == rl && p == t, "returned length of the string value"); if(n > rl) CHECK(vh_same(t, REF, rl) && t[rl] == 0, "string value"); else if(n) CHECK(vh_same(t, REF, n - 1), "part of the string value that fits"); free(t); REACH("buffer"); }
  osc_atom_u_free(u); osc_atom_s_free(s); free(wire); CHECK(vh_live() == live0, "no heap block is left");
}
#ifndef MTYPES
#define MTYPES "is.TbU"
#endif
/* F01, F02: messages */
void h_fmt_msg(void){
  G.alen = g_addr_chars(G.addr, 1, 2, 1); G.n = in_pick(0, NARGS); for(int i = 0; i < G.n; i++) small(&G.a[i], MTYPES); int ind = in_pick(0, 1); ref_msg(&G, ind);
  unsigned char w[512]; int wl = g_enc_msg(w, &G); char *wire = g_heap(w, wl); t_osc_msg_u *u = g_build(&G); t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, wire); long live0 = vh_live();
  switch(in_pick(0, 3)){
  case 0: BOUNDED(osc_message_u_nformat(NULL, 0, u, ind), osc_message_u_nformat(buf, n, u, ind), "message"); break;
  case 1: BOUNDED(osc_message_s_nformat(NULL, 0, s, ind), osc_message_s_nformat(buf, n, s, ind), "serialised message"); break;
  case 2: if(!ind){ CHECK(osc_message_u_getFormattedSize(u) == rl, "formatted size"); char *t = osc_message_u_format(u); CHECK(t && vh_same(t, REF, rl) && t[rl] == 0, "allocated text"); osc_mem_free(t); } break;
  case 3: if(!ind){ CHECK(osc_message_s_getFormattedSize(s) == rl, "formatted size"); char *t = osc_message_s_format(s); CHECK(t && vh_same(t, REF, rl) && t[rl] == 0, "allocated text"); osc_mem_free(t); } break;
  }
  CHECK(vh_live() == live0, "no heap block is left"); osc_message_u_free(u); osc_message_s_free(s); free(wire);
}
#ifndef NMSG
#define NMSG 2
#endif
void h_fmt_bndl(void){
  B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; m->alen = g_addr_chars(m->addr, 1, 2, 1); m->n = in_pick(0, i ? 1 : NARGS); for(int j = 0; j < m->n; j++) small(&m->a[j], i ? "s" : "c."); }
  int ind = in_pick(0, 2), nest = ind ? in_pick(0, 1) : 0; if(nest && ind) out("{\n"); if(!nest || ind) for(int i = 0; i < B.n; i++){ if(i) out(",\n"); ref_msg(&B.m[i], ind); } if(nest && ind){ out("\n"); for(int i = 1; i < ind; i++) for(int q = 0; q < OSC_SUBBUNDLE_INDENT; q++) out(" "); out("}"); }
  unsigned char w[768]; int wl = g_enc_bndl(w, &B); char *wire = g_heap(w, wl); t_osc_bndl_u *u = g_build_bndl(&B); long live0 = vh_live();
  switch(in_pick(0, 3)){
  case 0: if(nest) BOUNDED(osc_bundle_u_nformatNestedBndl(NULL, 0, u, ind), osc_bundle_u_nformatNestedBndl(buf, n, u, ind), "nested bundle"); else BOUNDED(osc_bundle_u_nformat(NULL, 0, u, ind), osc_bundle_u_nformat(buf, n, u, ind), "bundle"); break;
  case 1: if(nest) BOUNDED(osc_bundle_s_nformatNestedBndl(NULL, 0, wl, wire, ind), osc_bundle_s_nformatNestedBndl(buf, n, wl, wire, ind), "nested serialised bundle"); else BOUNDED(osc_bundle_s_nformat(NULL, 0, wl, wire, ind), osc_bundle_s_nformat(buf, n, wl, wire, ind), "serialised bundle"); break;
  case 2: if(!ind && !nest){ CHECK(osc_bundle_u_getFormattedSize(u) == rl, "formatted size"); char *t = osc_bundle_u_format(u); CHECK(t && vh_same(t, REF, rl) && t[rl] == 0, "allocated text"); osc_mem_free(t); } break;
  case 3: if(!ind && !nest){ CHECK(osc_bundle_s_getFormattedSize(wl, wire) == rl, "formatted size"); char *t = osc_bundle_s_format(wl, wire); CHECK(t && vh_same(t, REF, rl) && t[rl] == 0, "allocated text"); osc_mem_free(t); } break;
  }
  CHECK(vh_live() == live0, "no heap block is left"); osc_bundle_u_free(u); free(wire);
}
/* F02: the same object as text through either form, and after a round trip */
void h_same_text(void){
  B.n = in_pick(1, NMSG); for(int i = 0; i < B.n; i++){ g_msg *m = &B.m[i]; m->alen = g_addr_chars(m->addr, 1, 3, 1); m->n = in_pick(0, i ? 1 : 2); for(int j = 0; j < m->n; j++) small(&m->a[j], i || j ? "i.T" : TYPES); }
  t_osc_bndl_u *u = g_build_bndl(&B); t_osc_bndl_s *s = osc_bundle_u_serialize(u); t_osc_bndl_u *v = osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
  char *a = osc_bundle_u_format(u), *b = osc_bundle_s_format(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)), *c = osc_bundle_u_format(v); long n = osc_bundle_u_getFormattedSize(u);
  CHECK(osc_bundle_s_getFormattedSize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)) == n && osc_bundle_u_getFormattedSize(v) == n, "both forms need the same room"); CHECK(vh_same(a, b, n + 1) && vh_same(a, c, n + 1), "both forms have the same text");
  t_osc_bndl_it_u *iu = osc_bndl_it_u_get(u); t_osc_bndl_it_s *is = osc_bndl_it_s_get(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
  while(osc_bndl_it_u_hasNext(iu)){ t_osc_msg_u *mu = osc_bndl_it_u_next(iu); t_osc_msg_s *ms = osc_bndl_it_s_next(is); char *x = osc_message_u_format(mu), *y = osc_message_s_format(ms); n = osc_message_u_getFormattedSize(mu); CHECK(osc_message_s_getFormattedSize(ms) == n && vh_same(x, y, n + 1), "both forms of a message have the same text"); osc_mem_free(x); osc_mem_free(y);
    for(int i = 0; i < osc_message_u_getArgCount(mu); i++){ t_osc_atom_u *au = osc_message_u_getArg(mu, i); t_osc_atom_s *as = NULL; osc_message_s_getArg(ms, i, &as); x = osc_atom_u_format(au); y = osc_atom_s_format(as); n = osc_atom_u_getFormattedSize(au); CHECK(osc_atom_s_getFormattedSize(as) == n && vh_same(x, y, n + 1), "both forms of an atom have the same text"); osc_mem_free(x); osc_mem_free(y);
      x = y = NULL; n = osc_atom_u_getString(au, 0, &x); CHECK(osc_atom_s_getString(as, 0, &y) == n && vh_same(x, y, n + 1) && osc_atom_u_getStringLen(au) == n && osc_atom_s_getStringLen(as) == n, "both forms of an atom have the same string value"); osc_mem_free(x); osc_mem_free(y); osc_atom_s_free(as); } }
  osc_bndl_it_u_destroy(iu); osc_bndl_it_s_destroy(is); osc_mem_free(a); osc_mem_free(b); osc_mem_free(c); osc_bundle_u_free(u); osc_bundle_u_free(v); osc_bundle_s_deepFree(s); REACH("done");
}
#ifndef SLEN
#define SLEN 4
#endif
/* F03 */
int osc_strfmt_addQuotes(int len, char *buf, char **out);
void h_quote(void){
  unsigned char *s = malloc(SLEN + 1); int len = in_pick(0, SLEN), meta = 0; for(int i = 0; i < len; i++){ s[i] = in_u8(); ASSUME(s[i] != 0); } s[len] = 0; char *str = g_heap(s, len + 1);
  int how = in_pick(0, 4); if(how != 2) rl = 0; if(how == 0 || how == 1 || how == 4) ; 
  if(how != 0) REF[rl++] = '"'; for(int i = 0; i < len; i++){ int m = s[i] == '"' || s[i] == '\\'; meta += m; if(m && how != 2) REF[rl++] = '\\'; REF[rl++] = s[i]; } if(how != 0) REF[rl++] = '"'; REF[rl] = 0;
  CHECK(osc_strfmt_countMeta(len, str) == meta, "number of characters to escape");
  switch(how){
  case 0: BOUNDED(osc_strfmt_stringWithQuotedMeta(NULL, 0, str), osc_strfmt_stringWithQuotedMeta(buf, n, str), "escaped string"); break;
  case 1: BOUNDED(osc_strfmt_quotedStringWithQuotedMeta(NULL, 0, str), osc_strfmt_quotedStringWithQuotedMeta(buf, n, str), "quoted and escaped string"); break;
  case 2: BOUNDED(osc_strfmt_quotedString(NULL, 0, str), osc_strfmt_quotedString(buf, n, str), "quoted string"); break;
  case 3: { char *o = NULL; int r = osc_strfmt_addQuotesAndQuoteMeta(len, str, &o); CHECK(r == rl && o && vh_same(o, REF, rl) && o[rl] == 0, "allocated quoted and escaped string"); osc_mem_free(o); o = malloc(rl + 1); char *p = o; r = osc_strfmt_addQuotesAndQuoteMeta(len, str, &p); CHECK(p == o && r == rl && vh_same(o, REF, rl) && o[rl] == 0, "quoted and escaped string in a given buffer"); free(o); REACH("add"); break; }
  case 4: { char *o = NULL; int r = osc_strfmt_addQuotes(len, str, &o); int x = r; CHECK(o && x >= len && x <= len + 2 && o[x] == 0 && o[0] == '"' && o[x - 1] == '"', "string between quotes"); osc_mem_free(o); REACH("plain"); break; }
  }
  /* reading the quoted text back gives the string */
  if(how == 1 || how == 3){ int k = 0; for(int i = 1; i < rl - 1; i++){ if(REF[i] == '\\') i++; CHECK(k < len && REF[i] == (char)s[k], "unescaped character"); k++; } CHECK(k == len, "unescaped length"); }
  free(str); free(s);
}
void h_meta(void){ char c = (char)in_u8(); CHECK(!!osc_strfmt_isMeta(c) == (c == '"' || c == '\\'), "characters that need an escape"); REACH("done"); }
VH_MAIN
