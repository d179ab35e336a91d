/* texts and trees past every fixed buffer: the shape is picked from a list, the values are symbolic where the text allows */
#define G_PAY 2400
#define G_ADDR 320
#define G_MAXARG 70
#define G_MAXMSG 36
#include "gen.h"
#include "osc_parser.h"
static g_bndl B; static unsigned char W[65536], W2[65536]; static char REF[65536]; static int rl;
static int pickn(const int *l, int n){ return l[in_pick(0, n - 1)]; }
#define PICK(...) pickn((const int[]){ __VA_ARGS__ }, (int)(sizeof((const int[]){ __VA_ARGS__ }) / sizeof(int)))
static int quiet(void *context, const char * const s){ (void)context; (void)s; return 0; }
#ifdef VERB
#define VHP(...) fprintf(stderr, __VA_ARGS__)
#else
#define VHP(...) (void)0
#endif
static void out(const char *s){ while(*s) REF[rl++] = *s++; REF[rl] = 0; }
static void pad(int ind){ for(int i = 0; i < ind * OSC_SUBBUNDLE_INDENT; i++) out(" "); }
/* reference text, from the reference encoding */
static void ref_bndl(const unsigned char *p, int len, int ind){
  int o = 16, first = 1; while(o < len){ int z = rd32(p + o), q = o + 4; if(!first) out(",\n"); first = 0; pad(ind); const char *ad = (const char *)p + q; out(ad); q += pad4(strlen(ad) + 1); const char *tt = (const char *)p + q; int n = strlen(tt) - 1; q += pad4(n + 2); if(n) out(" : "); if(n > 1) out("[");
    for(int i = 0; i < n; i++){ if(i) out(", "); switch(tt[i + 1]){
      case 'i': rl += snprintf(REF + rl, 64, "%" PRId32, (int32_t)rd32(p + q)); q += 4; break; case 'T': out("true"); break; case 'N': out("nil"); break;
      case 'c': REF[rl++] = '\''; REF[rl++] = (char)p[q + 3]; REF[rl++] = '\''; REF[rl] = 0; q += 4; break;
      case 'd': { double d = u2d(rd64(p + q)); rl += snprintf(REF + rl, 64, "%g", d); if(d == floor(d) && d > -1000000. && d < 1000000.) out("."); q += 8; break; }
      case 's': { const char *s = (const char *)p + q; int k = strlen(s); out("\""); for(int j = 0; j < k; j++){ if(s[j] == '"' || s[j] == '\\') REF[rl++] = '\\'; REF[rl++] = s[j]; } out("\""); q += pad4(k + 1); break; }
      case 'b': { int k = rd32(p + q); out("blob("); for(int j = 0; j < k; j++) rl += snprintf(REF + rl, 64, j ? ", %d" : "%d", (int)(signed char)p[q + 4 + j]); out(")"); q += 4 + pad4(k); break; }
      case '.': { int k = rd32(p + q); out("{\n"); ref_bndl(p + q + 4, k, ind + 1); out("\n"); pad(ind); out("}"); q += 4 + k; break; } } }
    if(n > 1) out("]"); o += 4 + z; }
}
static void fill(g_arg *a, int n){ a->len = n; for(int i = 0; i < n; i++) a->b[i] = i % 37 == 36 ? '"' : i % 41 == 40 ? '\\' : 'A' + i % 26; if(n){ uint8_t c = in_u8(); ASSUME((c > 31) & (c < 127) & (c != '"') & (c != '\\')); a->b[n - 1] = c; } a->b[n] = 0; }
static void value(g_arg *a, char t, int slen){ memset(a, 0, 16); a->tt = t; static const double FV[] = { 0, -1.5, 0.1, 1e20, -2.5e-7, 999999 }; static int c; c++; switch(t){ case 's': fill(a, slen); break; case 'i': a->bits = (uint32_t)(c % 3 ? -c * 65537 : c); break; case 'd': a->bits = d2u(FV[c % 6]); break; case 'c': { uint8_t x = in_u8(); ASSUME((x > 31) & (x < 127)); a->bits = x; break; } case 'b': a->len = slen; for(int i = 0; i < slen; i++) a->b[i] = i * 7; break; } }
static void many(g_msg *m, const char *addr, int n, const char *types, int slen){ strcpy(m->addr, addr); m->alen = strlen(addr); m->n = n; int k = strlen(types); for(int i = 0; i < n; i++) value(&m->a[i], types[i % k], slen); }
/* bundles nested n deep; each level has an integer beside the bundle */
static int nest(unsigned char *p, int n, int wide){ static g_msg m; memset(&m, 0, sizeof m); strcpy(m.addr, "/x"); m.alen = 2; m.addr[1] += n % 3; m.n = 1; m.a[0].tt = 'i'; m.a[0].bits = (uint32_t)(n * 1001); if(n){ unsigned char *w = malloc(G_PAY); int l = nest(w, n - 1, wide); ASSUME(l <= G_PAY); memset(&m, 0, sizeof m); strcpy(m.addr, "/x"); m.alen = 2; m.addr[1] += n % 3; m.n = wide ? 2 : 1; m.a[0].tt = 'T'; m.a[m.n - 1].tt = '.'; m.a[m.n - 1].len = l; memcpy(m.a[m.n - 1].b, w, l); free(w); } int o = g_enc_header(p, 0); return o + g_enc_msg(p + o, &m); }
static void shape(int blobs){
  memset(&B, 0, sizeof B); static char ad[400]; switch(in_pick(0, blobs ? 5 : 4)){
  case 0: { int n = PICK(8, 17, 33); B.n = n; for(int i = 0; i < n; i++){ sprintf(ad, "/m%d", i); many(&B.m[i], ad, i % 3, "isd", 3); } break; }
  case 1: B.n = 2; many(&B.m[0], "/a", PICK(7, 8, 16, 33, 65), PICK(0, 1) ? "iTdscN" : "i", 2); many(&B.m[1], "/b", 1, "i", 0); break;
  case 2: B.n = 2; many(&B.m[0], "/a", 2, "si", PICK(31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048)); many(&B.m[1], "/b", 1, "s", 3); break;
  case 3: { int n = PICK(15, 16, 17, 31, 63, 64, 65, 127, 128, 255, 256, 300); ad[0] = '/'; for(int i = 1; i < n; i++) ad[i] = i % 9 ? 'a' + i % 26 : '/'; if(ad[n - 1] == '/') ad[n - 1] = 'z'; ad[n] = 0; B.n = 2; many(&B.m[0], ad, 1, "s", 3); many(&B.m[1], "/b", 1, "i", 0); break; }
  case 4: { int d = PICK(2, 3, 4, 6, 8, 12); B.n = 2; many(&B.m[0], "/a", 2, "i", 0); g_arg *a = &B.m[0].a[1]; memset(a, 0, 16); a->tt = '.'; a->len = nest(a->b, d, in_pick(0, 1)); many(&B.m[1], "/b", 1, "s", 3); break; }
  case 5: B.n = 2; many(&B.m[0], "/a", 2, "bi", PICK(8, 16, 17, 63, 64, 128, 255, 256, 300)); many(&B.m[1], "/b", 1, "s", 3); break;
  }
}
static int size(int k){ return k == 0 ? rl + 1 : k == 1 ? rl : k == 2 ? rl - 1 : k == 3 ? rl / 2 : k == 4 ? 64 < rl ? 64 : rl : 1; }
/* F01, F02: the text, through either form, into buffers of several sizes */
void h_text(void){
  shape(1); int n = g_enc_bndl(W, &B); rl = 0; ref_bndl(W, n, 0); t_osc_bndl_u *u = g_build_bndl(&B); char *w = g_heap(W, n); long live0 = vh_live(); int k = size(in_pick(0, 5)); char *buf = malloc(k), *t;
  VHP("%s\n%s\n%ld %ld %d\n", REF, osc_bundle_u_format(u), osc_bundle_u_getFormattedSize(u), osc_bundle_s_getFormattedSize(n, w), rl);  CHECK(osc_bundle_u_getFormattedSize(u) == rl && osc_bundle_s_getFormattedSize(n, w) == rl, "announced length of the text"); int s = in_pick(0, 1); int r = s ? osc_bundle_s_nformat(buf, k, n, w, 0) : osc_bundle_u_nformat(buf, k, u, 0); CHECK(r == rl, "returned length of the text"); if(k > rl) CHECK(vh_same(buf, REF, rl + 1), "text"); else CHECK(vh_same(buf, REF, k - 1) && buf[k - 1] == 0, "the part of the text that fits, terminated"); free(buf);
  t = s ? osc_bundle_s_format(n, w) : osc_bundle_u_format(u); CHECK(t && vh_same(t, REF, rl + 1), "allocated text"); osc_mem_free(t);
  if(s){ t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, w); while(osc_bndl_it_s_hasNext(it)){ t_osc_msg_s *m = osc_bndl_it_s_next(it); t = osc_message_s_format(m); int z = strlen(t); CHECK(osc_message_s_getFormattedSize(m) == z, "announced length of a message"); osc_mem_free(t); } osc_bndl_it_s_destroy(it); } CHECK(vh_live() == live0, "no heap block is left"); osc_bundle_u_free(u); free(w); REACH("done");
}
/* P02: and back */
void h_back(void){
  shape(0); int n = g_enc_bndl(W, &B); rl = 0; ref_bndl(W, n, 0); osc_error_setHandler(quiet); long live0 = vh_live(); t_osc_bndl_u *u = g_build_bndl(&B), *p = NULL; char *t = osc_bundle_u_format(u); CHECK(osc_parser_parseString(strlen(t), t, &p) == OSC_ERR_NONE && p, "formatted text parses"); t_osc_bndl_s *s = osc_bundle_u_serialize(p); int same = osc_bundle_s_getLen(s) == n && vh_same(osc_bundle_s_getPtr(s), W, n); CHECK(same, "the bundle comes back"); osc_bundle_s_deepFree(s); osc_mem_free(t); osc_bundle_u_free(u); osc_bundle_u_free(p); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* W03, B07: deep nesting: serialise, deserialise, copy */
void h_deep(void){
  int d = PICK(1, 2, 3, 4, 5, 8, 12, 16), wide = in_pick(0, 1); int n = nest(W, d, wide); long live0 = vh_live(); char *w = g_heap(W, n); t_osc_bndl_u *u = osc_bundle_s_deserialize(n, w); CHECK(u && osc_bundle_u_getSerializedSize(u) == n, "size"); CHECK(osc_error_bundleSanityCheck(n, w) == OSC_ERR_NONE, "well-formed"); t_osc_bndl_s *s = osc_bundle_u_serialize(u); CHECK(osc_bundle_s_getLen(s) == n && vh_same(osc_bundle_s_getPtr(s), W, n), "the encoding"); osc_bundle_s_deepFree(s); t_osc_bndl_u *c = NULL; osc_bundle_u_copy(&c, u); osc_bundle_u_free(u); int sh = PICK(0, 4, 16); char *b = malloc(n - sh); int r = osc_bundle_u_nserialize(b, n - sh, c); if(!sh) CHECK(r == n && vh_same(b, W, n), "the copy"); free(b); osc_bundle_u_free(c); free(w); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* B08: explode a long address and flatten it back; flatten a deep tree */
void h_tree(void){
  int k = PICK(1, 2, 3, 4, 5, 8, 9, 12), two = in_pick(0, 1), len = PICK(1, 3, 9); static char ad[400]; int l = 0; for(int i = 0; i < k; i++){ ad[l++] = '/'; for(int j = 0; j < len; j++) ad[l++] = 'a' + (i * 3 + j) % 26; } ad[l] = 0; ASSUME(l < 310); memset(&B, 0, sizeof B); B.n = 1 + two; for(int i = 0; i <= two; i++){ if(i){ ad[l - 1] = 'Z'; } many(&B.m[i], ad, 2, "ci", 0); } int n = g_enc_bndl(W, &B); long live0 = vh_live();
  t_osc_bndl_u *u = g_build_bndl(&B), *e = NULL, *f = NULL; int max = PICK(-1, 1, 3, 20); CHECK(osc_bundle_u_explode(&e, u, max, in_pick(0, 1) ? "/" : NULL) == OSC_ERR_NONE, "exploding succeeds"); int depth = 0; t_osc_bndl_u *p = e; for(;;){ t_osc_msg_u *m = osc_bundle_u_getFirstMsg(p); CHECK(m != NULL, "a message at every level"); t_osc_atom_u *x = osc_message_u_getArg(m, 0); if(osc_atom_u_getTypetag(x) != '.') break; depth++; p = osc_atom_u_getBndl(x); } CHECK(depth == (max < 0 || max > k - 1 ? k - 1 : max), "one level per component, up to the limit");
  CHECK(osc_bundle_u_flatten(&f, e, 0, "", 1) == OSC_ERR_NONE, "flattening succeeds"); CHECK(osc_bundle_u_getMsgCount(f) == B.n, "number of messages"); for(int i = 0; i < B.n; i++){ t_osc_msg_u *m = osc_bundle_u_getFirstMsg(f); while(m && strcmp(osc_message_u_getAddress(m), B.m[i].addr)) m = osc_message_u_next(m); CHECK(m != NULL, "flattening an exploded bundle gives the addresses back"); CHECK(osc_message_u_getArgCount(m) == 2 && g_eq_u(osc_message_u_getArg(m, 0), &B.m[i].a[0]) && g_eq_u(osc_message_u_getArg(m, 1), &B.m[i].a[1]), "flattening an exploded bundle gives the arguments back"); }
  t_osc_bndl_s *s = osc_bundle_s_alloc(n, (char *)W), *es = NULL, *fs = NULL, *x = osc_bundle_u_serialize(e); osc_bundle_s_explode(&es, s, max, "/"); CHECK(es && osc_bundle_s_getLen(es) == osc_bundle_s_getLen(x) && vh_same(osc_bundle_s_getPtr(es), osc_bundle_s_getPtr(x), osc_bundle_s_getLen(x)), "the serialised form explodes alike"); osc_bundle_s_deepFree(x); osc_bundle_s_flatten(&fs, es, 0, "", 1); x = osc_bundle_u_serialize(f); CHECK(fs && osc_bundle_s_getLen(fs) == osc_bundle_s_getLen(x) && vh_same(osc_bundle_s_getPtr(fs), osc_bundle_s_getPtr(x), osc_bundle_s_getLen(x)), "the serialised form flattens alike"); osc_bundle_s_deepFree(x); osc_bundle_s_deepFree(es); osc_bundle_s_deepFree(fs); osc_bundle_s_free(s); osc_bundle_u_free(u); osc_bundle_u_free(e); osc_bundle_u_free(f); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
