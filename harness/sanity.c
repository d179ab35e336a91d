#include "gen.h"
/* independent statement of what the check accepts */
static int ref_msg(const unsigned char *p, int n){
  if(n < 4) return OSC_ERR_MSGTOOSMALL; if(p[4] != '/') return OSC_ERR_MALFORMEDADDRESS;
  int i = 0; while(i < n && p[4 + i]) i++; if(i == n) return OSC_ERR_MALFORMEDADDRESS;
  i = pad4(i + 1); if(i >= n) return OSC_ERR_NONE; while(i < n && p[4 + i]) i++; return i < n ? OSC_ERR_NONE : OSC_ERR_MALFORMEDMSG; }
static int ref_ok(const unsigned char *p, int len){
  if(len < 16) return OSC_ERR_BUNDLETOOSMALL;
  if(!vh_same(p, "#bundle\0", 8)) return OSC_ERR_NOBUNDLEID;
  int o = 16; while(o < len){ if(len - o < 4) return OSC_ERR_MSGTOOLARGE; int32_t n = (int32_t)rd32(p + o); if(n > len - o - 4) return OSC_ERR_MSGTOOLARGE; int r = ref_msg(p + o, n); if(r) return r; o += 4 + n; }
  return OSC_ERR_NONE;
}
#ifndef NMSG
#define NMSG 2
#endif
#ifndef LMAX
#define LMAX 34
#endif
/* arbitrary bytes of every length */
void h_sanity_any(void){
  int len = in_pick(0, LMAX); char *b = malloc(len ? len : 1); unsigned char c[LMAX + 1];
  if(in_bool()){ for(int i = 0; i < len; i++) b[i] = in_u8(); } else { for(int i = 0; i < len; i++) b[i] = i < 8 ? "#bundle\0"[i] : in_u8(); }
  memcpy(c, b, len); t_osc_err e = osc_error_bundleSanityCheck(len, b); int r = ref_ok(c, len);
  CHECK((e == OSC_ERR_NONE) == (r == OSC_ERR_NONE), "accepted exactly when the header and all message sizes are right"); CHECK(e == r, "error code"); CHECK(vh_same(b, c, len), "the check does not write");
  if(!e){ int k = 0; t_osc_bndl_it_s *it = osc_bndl_it_s_get(len, b); int pos = 16;
    while(osc_bndl_it_s_hasNext(it)){ t_osc_msg_s *m = osc_bndl_it_s_next(it); char *p = osc_message_s_getPtr(m); CHECK(p >= b && p + 4 <= b + len && p == b + pos, "message inside the buffer"); pos += 4 + (int)rd32(p); CHECK(pos <= len, "end of the message inside the buffer"); CHECK(++k <= len / 8, "iteration ends"); }
    CHECK(pos == len, "messages tile the buffer"); osc_bndl_it_s_destroy(it); REACH("accepted"); } else REACH("rejected");
  free(b);
}
/* everything the library serialises is accepted; any cut is not unless at a message boundary */
static g_bndl B; static unsigned char REF[1024];
void h_sanity_own(void){
  B.tt = in_u64(); B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++) g_msg_any(&B.m[i], 1, i ? "ib" : g_types_all, i ? 3 : 5, 1);
  t_osc_bndl_u *u = g_build_bndl(&B); t_osc_bndl_s *s = osc_bundle_u_serialize(u); int n = osc_bundle_s_getLen(s); char *p = osc_bundle_s_getPtr(s);
  CHECK(osc_error_bundleSanityCheck(n, p) == OSC_ERR_NONE, "serialised bundles are accepted");
  int off[8], k = g_walk((unsigned char *)p, n, off, 8); off[k] = n; CHECK(k == B.n, "message count");
  for(int i = 0; i < k; i++) CHECK(osc_error_msgSanityCheck(p + off[i]) == OSC_ERR_NONE, "serialised messages are accepted");
  int cut = in_pick(0, n - 1), at = cut == 16; for(int i = 0; i <= k; i++) at |= cut == off[i]; char *q = malloc(cut ? cut : 1); memcpy(q, p, cut);
  CHECK((osc_error_bundleSanityCheck(cut, q) == OSC_ERR_NONE) == at, "a truncated bundle is refused"); free(q);
  osc_bundle_s_deepFree(s); osc_bundle_u_free(u); REACH("done");
}
void h_sanity_msg(void){ char b[20]; for(int i = 0; i < 20; i++) b[i] = in_u8(); int32_t n = (int32_t)rd32(b); ASSUME(n <= 16); t_osc_err e = osc_error_msgSanityCheck(b); CHECK(e == ref_msg((unsigned char *)b, n), "message check"); CHECK(osc_error_bundleSanityCheck(16, NULL) == OSC_ERR_NOBUNDLE, "no buffer"); REACH("done"); }
/* X01 */
#ifndef AMAX
#define AMAX 8
#endif
void h_address(void){
  int n = in_pick(0, AMAX); char *a = malloc(n + 1); int bad = 0; for(int i = 0; i < n; i++){ uint8_t c = in_u8(); ASSUME(c != 0); a[i] = c; bad |= (c == '#') | (c == ' '); } a[n] = 0;
  t_osc_err e = osc_error_validateAddress(a); int lead = n > 0 && a[0] == '/';
  CHECK((e == OSC_ERR_NONE) == (lead && n >= 2 && !bad), "accepted exactly when legal");
  if(!lead || n < 2) CHECK(e == OSC_ERR_MALFORMEDADDRESS, "malformed address code"); else if(bad) CHECK(e == OSC_ERR_INVALIDCHARINADDRESS, "invalid character code");
  CHECK(osc_error_validateAddress(NULL) == OSC_ERR_NULLPTR, "no address"); free(a); REACH("done");
}
static char got[1200]; static void *gctx; static int calls; static int handler(void *c, const char *const s){ calls++; gctx = c; int i = 0; while(s[i] && i < 1199){ got[i] = s[i]; i++; } got[i] = 0; return 7; }
void h_errstr(void){
  uint64_t e = in_u64(); static const int K[] = {0,1,2,4,8,0x10,0x11,0x12,0x14,0x18,0x20,0x21,0x22,0x24,0x100,0x101,0x102,0x104,0x108,0x1000}; char *s = osc_error_string(e); CHECK(s && *s, "a text for every code"); int known = 0; for(int i = 0; i < 20; i++) known |= e == (uint64_t)K[i]; CHECK((strcmp(s, "unrecognized error code") == 0) == !known, "known codes have their own text");
  REACH("done");
}
void h_errhandler(void){
  int x; osc_error_setHandler(handler); char nm[4]; int n = g_str((unsigned char *)nm, 3); 
  CHECK(osc_error_handler(&x, NULL, NULL, 0, OSC_ERR_NONE, "%s|%d", nm, 42) == 7 && calls == 1 && gctx == &x, "handler called once with its context"); char exp[16]; memcpy(exp, nm, n); strcpy(exp + n, "|42"); CHECK(g_str_eq(got, exp), "message text");
  CHECK(osc_error_handler(NULL, NULL, nm, 0, OSC_ERR_NONE, NULL) == 7 && calls == 2, "handler called"); memcpy(exp, nm, n); strcpy(exp + n, "(): "); CHECK(g_str_eq(got, exp), "function name in the text");
  osc_error_setHandler(NULL); CHECK(osc_error_handler(NULL, NULL, NULL, 0, OSC_ERR_NONE, "x") == 0 && calls == 2, "no handler, no call"); REACH("done");
}
VH_MAIN
