#include "gen.h"
#ifndef TYPES
#define TYPES "ifhdIHcCuUTFNstb"
#endif
#ifndef NARGS
#define NARGS 2
#endif
#ifndef NMSG
#define NMSG 2
#endif
static g_msg G; static g_bndl B;
/* an atom that held another type before serialises as if it had been fresh */
void h_reuse(void){
  long live0 = vh_live();
  g_arg a, b; g_arg_any(&a, TYPES); g_arg_any(&b, TYPES);
  unsigned char ref[128]; int n = g_enc_arg(ref, &b);
  t_osc_atom_u *x = osc_atom_u_alloc(); g_set(x, &a); CHECK(g_eq_u(x, &a), "value after setting"); g_set(x, &b); CHECK(g_eq_u(x, &b), "value after setting again");
  CHECK(osc_atom_u_getSerializedSize(x) == n, "size of a re-used atom");
  char *buf = malloc(n ? n : 1); size_t k = osc_atom_u_nserialize(buf, n, x);
  CHECK((int)k == n && vh_same(buf, ref, n), "encoding of a re-used atom");
  free(buf); osc_atom_u_free(x);
  CHECK(vh_live() == live0, "no heap block is left after freeing the atom");
  REACH("done");
}
/* W02: atoms, messages and bundles with a bound */
void h_bounded_atom(void){
  g_arg a; g_arg_any(&a, TYPES);
  unsigned char ref[128]; int n = g_enc_arg(ref, &a), k = in_pick(0, n + 2);
  t_osc_atom_u *x = osc_atom_u_alloc(); g_set(x, &a);
  CHECK(osc_atom_u_getSerializedSize(x) == n && (int)osc_atom_u_nserialize(NULL, 0, x) == n, "announced atom size");
  char *buf = malloc(k); memset(buf, 0x5a, k); size_t r = osc_atom_u_nserialize(buf, k, x);
  if(k >= n){ CHECK((int)r == n && vh_same(buf, ref, n), "atom encoding with enough room"); for(int i = n; i < k; i++) CHECK(buf[i] == 0x5a, "bytes after the encoding untouched"); REACH("fits"); }
  else { CHECK((int)r <= k, "no more bytes reported than there is room"); REACH("short"); }
  t_osc_atom_s *s = osc_atom_u_serialize(x); CHECK(s && osc_atom_s_getTypetag(s) == a.tt && vh_same(osc_atom_s_getData(s), ref, n), "serialised atom"); free(osc_atom_s_getData(s)); osc_atom_s_free(s);
  free(buf); osc_atom_u_free(x);
}
void h_bounded_msg(void){
  g_msg_any(&G, NARGS, TYPES, 4, 1);
  unsigned char ref[256]; int n = g_enc_msg(ref, &G), k = in_pick(0, n + 1);
  t_osc_msg_u *u = g_build(&G);
  CHECK(osc_message_u_getSerializedSize(u) == n && (int)osc_message_u_nserialize(NULL, 0, u) == n, "announced message size");
  char *buf = malloc(k); size_t r = osc_message_u_nserialize(buf, k, u);
  if(k >= n){ CHECK((int)r == n && vh_same(buf, ref, n), "message encoding with enough room"); REACH("fits"); } else { CHECK((int)r <= k, "no more bytes reported than there is room"); REACH("short"); }
  free(buf); osc_message_u_free(u);
}
void h_bounded_bndl(void){
  long live0 = vh_live();
  B.tt = 0; B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++){ B.m[i].alen = g_addr_chars(B.m[i].addr, 2, 3, 1); B.m[i].n = in_pick(0, 2); for(int j = 0; j < B.m[i].n; j++) if(j == 0) g_arg_any(&B.m[i].a[j], "ihs"); else g_nested(&B.m[i].a[j]); }
  unsigned char ref[512]; int n = g_enc_bndl(ref, &B), k = in_pick(0, n + 1);
  t_osc_bndl_u *u = g_build_bndl(&B);
  CHECK(osc_bundle_u_getSerializedSize(u) == n && (int)osc_bundle_u_nserialize(NULL, 0, u) == n, "announced bundle size");
  char *buf = malloc(k); size_t r = osc_bundle_u_nserialize(buf, k, u);
  if(k >= n){ CHECK((int)r == n && vh_same(buf, ref, n), "bundle encoding with enough room"); REACH("fits"); } else { CHECK((int)r <= k, "no more bytes reported than there is room"); REACH("short"); }
  free(buf); osc_bundle_u_free(u);
  CHECK(vh_live() == live0, "no heap block is left");
}
/* W03 */
static void eq_bndl_u(t_osc_bndl_u *v, g_bndl *b){
  CHECK(osc_bundle_u_getMsgCount(v) == b->n, "message count of the unserialised bundle");
  t_osc_bndl_it_u *it = osc_bndl_it_u_get(v); int k = 0;
  while(osc_bndl_it_u_hasNext(it)){
    t_osc_msg_u *m = osc_bndl_it_u_next(it); CHECK(k < b->n, "not more messages than were encoded");
    CHECK(g_str_eq(osc_message_u_getAddress(m), b->m[k].addr), "message address"); CHECK(osc_message_u_getArgCount(m) == b->m[k].n, "message argument count");
    for(int j = 0; j < b->m[k].n; j++) CHECK(g_eq_u(osc_message_u_getArg(m, j), &b->m[k].a[j]), "message argument");
    k++;
  }
  osc_bndl_it_u_destroy(it); CHECK(k == b->n, "all messages are there");
}
void h_bndl_roundtrip(void){
  long live0 = vh_live();
  B.tt = 0; B.n = in_pick(0, NMSG);
  for(int i = 0; i < B.n; i++){ B.m[i].alen = g_addr_chars(B.m[i].addr, 2, 5, 1); B.m[i].n = in_pick(0, NARGS); for(int j = 0; j < B.m[i].n; j++) if(in_bool()) g_nested(&B.m[i].a[j]); else g_arg_any(&B.m[i].a[j], TYPES); }
  unsigned char ref[1024]; int n = g_enc_bndl(ref, &B);
  t_osc_bndl_u *u = g_build_bndl(&B); eq_bndl_u(u, &B);
  t_osc_bndl_s *s = osc_bundle_u_serialize(u);
  CHECK(osc_bundle_s_getLen(s) == n && vh_same(osc_bundle_s_getPtr(s), ref, n), "bundle bytes");
  int cnt = -1; osc_bundle_s_getMsgCount(n, osc_bundle_s_getPtr(s), &cnt); CHECK(cnt == B.n, "message count of the serialised bundle");
  CHECK(osc_error_bundleSanityCheck(n, osc_bundle_s_getPtr(s)) == OSC_ERR_NONE, "the library's own bundles pass the sanity check");
  t_osc_bndl_u *v = osc_bundle_s_deserialize(n, osc_bundle_s_getPtr(s)); eq_bndl_u(v, &B);
  t_osc_bndl_s *s2 = osc_bundle_u_serialize(v);
  CHECK(osc_bundle_s_getLen(s2) == n && vh_same(osc_bundle_s_getPtr(s2), ref, n), "second serialisation is identical");
  osc_bundle_s_deepFree(s2); osc_bundle_s_deepFree(s); osc_bundle_u_free(v); osc_bundle_u_free(u);
  CHECK(vh_live() == live0, "no heap block is left");
  REACH("done");
}
/* three-level nesting */
void h_nest3(void){
  g_bndl in; memset(&in, 0, sizeof in); in.n = 1; in.m[0].alen = g_addr_chars(in.m[0].addr, 2, 3, 1); in.m[0].n = in_pick(0, 1); if(in.m[0].n){ in.m[0].a[0].tt = 'i'; in.m[0].a[0].bits = in_u32(); }
  g_bndl mid; memset(&mid, 0, sizeof mid); mid.n = 1; g_simple(&mid.m[0], "/m", 0); mid.m[0].n = 1; mid.m[0].a[0].tt = '.'; mid.m[0].a[0].len = g_enc_bndl(mid.m[0].a[0].b, &in);
  unsigned char mb[256]; int ml = g_enc_bndl(mb, &mid);
  t_osc_bndl_u *mu = osc_bundle_s_deserialize(ml, (char *)mb);
  t_osc_msg_u *m = osc_message_u_allocWithAddress("/o"); osc_message_u_appendBndl_u(m, mu); osc_message_u_appendInt32(m, 7);
  t_osc_bndl_u *o = osc_bundle_u_alloc(); osc_bundle_u_addMsg(o, m);
  unsigned char ref[256]; int r = 16; g_enc_header(ref, 0); r += 4; memcpy(ref + r, "/o\0\0,.i\0", 8); r += 8; wr32(ref + r, ml); memcpy(ref + r + 4, mb, ml); r += 4 + ml; wr32(ref + r, 7); r += 4; wr32(ref + 16, r - 20);
  t_osc_bndl_s *s = osc_bundle_u_serialize(o); CHECK(osc_bundle_s_getLen(s) == r && vh_same(osc_bundle_s_getPtr(s), ref, r), "nested bundle bytes");
  t_osc_bndl_u *v = osc_bundle_s_deserialize(r, (char *)ref); t_osc_bndl_s *s2 = osc_bundle_u_serialize(v);
  CHECK(osc_bundle_s_getLen(s2) == r && vh_same(osc_bundle_s_getPtr(s2), ref, r), "nested bundle bytes after the way back");
  osc_bundle_s_deepFree(s2); osc_bundle_s_deepFree(s); osc_bundle_u_free(v); osc_bundle_u_free(o);
  REACH("done");
}
/* W05 */
void h_access(void){
  G.alen = g_addr_chars(G.addr, 1, 5, 1); G.n = in_pick(0, NARGS); for(int i = 0; i < G.n; i++) g_arg_any(&G.a[i], TYPES);
  unsigned char ref[256], tmp[80]; int n = g_enc_msg(ref, &G); char *w = g_heap(ref, n);
  int cache = in_bool(), at = pad4(G.alen + 1) + 4, dt = at + pad4(G.n + 2);
  long live0 = vh_live();
  t_osc_msg_s *s = osc_message_s_alloc(); CHECK(osc_message_s_wrap(s, w) == OSC_ERR_NONE, "wrap succeeds"); if(cache) osc_message_s_cacheDataOffsets(s);
  CHECK(osc_message_s_getPtr(s) == w && osc_message_s_getAddress(s) == w + 4 && osc_message_s_getTypetags(s) == w + at && osc_message_s_getSize(s) == n - 4, "field positions");
  if(G.n) CHECK(osc_message_s_getData(s) == w + dt, "data position");
  CHECK(osc_message_s_getArgCount(s) == G.n, "argument count");
  t_osc_msg_it_s *it = osc_msg_it_s_get(s);
  for(int pass = 0; pass < 2; pass++){
    int o = dt;
    for(int i = 0; i < G.n; i++){
      CHECK(osc_msg_it_s_hasNext(it), "hasNext before the end");
      t_osc_atom_s *a = osc_msg_it_s_next(it); CHECK(a != NULL, "next before the end"); int sz = g_enc_arg(tmp, &G.a[i]);
      CHECK(osc_atom_s_getTypetag(a) == G.a[i].tt && osc_atom_s_getData(a) == w + o, "iterated argument position"); CHECK((int)osc_atom_s_sizeof(a) == sz, "size of the argument"); CHECK(g_eq_s(a, &G.a[i]), "iterated argument value");
      t_osc_atom_s *b = NULL; osc_message_s_getArg(s, i, &b); CHECK(b && osc_atom_s_getTypetag(b) == G.a[i].tt && osc_atom_s_getData(b) == w + o, "indexed argument"); if(i == G.n - 1) osc_atom_s_free(b); else { osc_message_s_getArg(s, i + 1, &b); CHECK(osc_atom_s_getTypetag(b) == G.a[i + 1].tt && osc_atom_s_getData(b) == w + o + sz && g_eq_s(b, &G.a[i + 1]), "an indexed argument replaces the one before"); osc_atom_s_free(b); }
      CHECK(osc_message_s_getTypetag(s, i) == G.a[i].tt, "indexed typetag"); o += sz;
    }
    CHECK(!osc_msg_it_s_hasNext(it), "hasNext after the last"); CHECK(osc_msg_it_s_next(it) == NULL, "next after the last"); CHECK(o == n, "arguments tile the data");
    osc_msg_it_s_reset(it);
  }
  osc_msg_it_s_destroy(it);
  int k = (int)in_u32(); ASSUME((k < 0) | (k >= G.n)); if(k < 0) REACH("negative"); else REACH("beyond");
  t_osc_atom_s *z = NULL; osc_message_s_getArg(s, k, &z); CHECK(z == NULL, "out-of-range argument refused"); CHECK(osc_message_s_getTypetag(s, k) == 0, "out-of-range typetag refused");
  osc_message_s_free(s); CHECK(vh_live() == live0, "no heap block is left"); free(w);
}
void h_access_u(void){
  G.alen = g_addr_chars(G.addr, 1, 3, 1); G.n = in_pick(0, NARGS); for(int i = 0; i < G.n; i++) g_arg_any(&G.a[i], "ihsTb");
  t_osc_msg_u *u = g_build(&G); long live0 = vh_live();
  CHECK(osc_message_u_getArgCount(u) == G.n && g_str_eq(osc_message_u_getAddress(u), G.addr), "count and address");
  t_osc_msg_it_u *it = osc_msg_it_u_get(u);
  for(int pass = 0; pass < 2; pass++){
    for(int i = 0; i < G.n; i++){ CHECK(osc_msg_it_u_hasNext(it), "hasNext before the end"); t_osc_atom_u *a = osc_msg_it_u_next(it); CHECK(a && a == osc_message_u_getArg(u, i) && g_eq_u(a, &G.a[i]), "iterated argument"); }
    CHECK(!osc_msg_it_u_hasNext(it), "hasNext after the last"); osc_msg_it_u_reset(it);
  }
  osc_msg_it_u_destroy(it);
  int k = (int)in_u32(); ASSUME((k < 0) | (k >= G.n)); CHECK(osc_message_u_getArg(u, k) == NULL, "out-of-range argument refused");
  CHECK(vh_live() == live0, "no heap block is left"); osc_message_u_free(u); REACH("done");
}
static int cbn; static g_bndl *cbb; static int cboff[8]; static char *cbw;
static void cb(t_osc_msg_s *m, void *ctx){ CHECK(ctx == &cbn, "callback context"); CHECK(cbn < cbb->n && osc_message_s_getPtr(m) == cbw + cboff[cbn], "callback order"); cbn++; }
void h_bndl_iter(void){
  B.tt = in_u64(); B.n = in_pick(0, 3); for(int i = 0; i < B.n; i++){ B.m[i].alen = g_addr_chars(B.m[i].addr, 2, 5, 1); B.m[i].n = in_pick(0, 1); if(B.m[i].n) g_arg_any(&B.m[i].a[0], "ihsb"); }
  unsigned char ref[512]; int n = g_enc_bndl(ref, &B); char *w = g_heap(ref, n); int off[8]; g_walk(ref, n, off, 8);
  long live0 = vh_live();
  CHECK(osc_bundle_s_strcmpID(w) == 0, "bundle id recognised"); CHECK(g_ttbits(osc_bundle_s_getTimetag(n, w)) == B.tt, "bundle timetag");
  int c = -1; CHECK(osc_bundle_s_getMsgCount(n, w, &c) == OSC_ERR_NONE && c == B.n, "message count");
  t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, w);
  for(int pass = 0; pass < 2; pass++){
    for(int i = 0; i < B.n; i++){ CHECK(osc_bndl_it_s_hasNext(it), "hasNext before the end"); t_osc_msg_s *m = osc_bndl_it_s_next(it); CHECK(m && osc_message_s_getPtr(m) == w + off[i] && osc_message_s_getAddress(m) == w + off[i] + 4, "iterated message position"); CHECK(osc_message_s_getArgCount(m) == B.m[i].n, "iterated message argument count"); }
    CHECK(!osc_bndl_it_s_hasNext(it), "hasNext after the last"); osc_bndl_it_s_reset(it);
  }
  osc_bndl_it_s_destroy(it);
  cbb = &B; cbn = 0; cbw = w; memcpy(cboff, off, sizeof off); osc_bundle_s_getMessagesWithCallback(n, w, cb, &cbn); CHECK(cbn == B.n, "every message reaches the callback");
  t_osc_bndl_s *bs = osc_bundle_s_alloc(n, w); t_osc_msg_s *fm = osc_bundle_s_getFirstMsg(bs); if(B.n){ CHECK(fm && osc_message_s_getPtr(fm) == w + 16, "first message"); } osc_message_s_free(fm); osc_bundle_s_free(bs);
  CHECK(vh_live() == live0, "no heap block is left"); CHECK(vh_same(w, ref, n), "the bundle bytes are unchanged"); free(w); REACH("done");
}
static void cbu(t_osc_msg_u *m, void *ctx){ CHECK(ctx == &cbn && cbn < B.n, "callback context"); CHECK(g_str_eq(osc_message_u_getAddress(m), B.m[cbn].addr), "callback order"); cbn++; }
void h_bndl_iter_u(void){
  B.n = in_pick(0, 3); for(int i = 0; i < B.n; i++){ B.m[i].alen = g_addr_chars(B.m[i].addr, 2, 4, 1); B.m[i].n = in_pick(0, 1); if(B.m[i].n) g_arg_any(&B.m[i].a[0], "is"); }
  t_osc_bndl_u *u = g_build_bndl(&B); long live0 = vh_live(); CHECK(osc_bundle_u_getMsgCount(u) == B.n, "count");
  t_osc_bndl_it_u *it = osc_bndl_it_u_get(u);
  for(int pass = 0; pass < 2; pass++){
    for(int i = 0; i < B.n; i++){ CHECK(osc_bndl_it_u_hasNext(it), "hasNext before the end"); t_osc_msg_u *m = osc_bndl_it_u_next(it); CHECK(m && g_str_eq(osc_message_u_getAddress(m), B.m[i].addr) && osc_message_u_getArgCount(m) == B.m[i].n, "iterated message"); }
    CHECK(!osc_bndl_it_u_hasNext(it), "hasNext after the last"); osc_bndl_it_u_reset(it);
  }
  osc_bndl_it_u_destroy(it);
  t_osc_msg_u *fm = osc_bundle_u_getFirstMsg(u); CHECK((fm != NULL) == (B.n > 0), "first message exists iff there is one"); if(fm) CHECK(g_str_eq(osc_message_u_getAddress(fm), B.m[0].addr), "first message");
  cbn = 0; osc_bundle_u_getMessagesWithCallback(u, cbu, &cbn); CHECK(cbn == B.n, "every message reaches the callback");
  CHECK(vh_live() == live0, "no heap block is left"); osc_bundle_u_free(u); REACH("done");
}
/* re-using one message object for several messages, with and without typetags, cached or not */
void h_rewrap(void){
  g_msg_any(&G, 2, "ihs", 3, 1); static g_msg H; g_msg_any(&H, 2, "ihs", 3, 1);
  unsigned char r1[128], r2[128]; int n1 = g_enc_msg(r1, &G), n2 = g_enc_msg(r2, &H); int bare = in_bool(); if(bare){ n2 = 4 + pad4(H.alen + 1); wr32(r2, n2 - 4); H.n = 0; }
  char *w1 = g_heap(r1, n1), *w2 = g_heap(r2, n2);
  t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, w1); if(in_bool()) osc_message_s_cacheDataOffsets(s);
  osc_message_s_wrap(s, w2);
  CHECK(osc_message_s_getArgCount(s) == H.n, "argument count after wrapping other bytes");
  t_osc_msg_it_s *it = osc_msg_it_s_get(s); int i = 0; while(osc_msg_it_s_hasNext(it)){ t_osc_atom_s *a = osc_msg_it_s_next(it); CHECK(i < H.n && g_eq_s(a, &H.a[i]), "iterated argument after wrapping other bytes"); t_osc_atom_s *b = NULL; osc_message_s_getArg(s, i, &b); CHECK(b && g_eq_s(b, &H.a[i]), "indexed argument after wrapping other bytes"); osc_atom_s_free(b); i++; }
  CHECK(i == H.n, "all arguments"); osc_msg_it_s_destroy(it); osc_message_s_free(s); free(w1); free(w2); if(bare) REACH("bare"); else REACH("typed");
}
VH_MAIN
