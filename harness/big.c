/* sizes past every buffer, table and cache the library starts with: the shape is picked from a list, the values are symbolic */
#define G_PAY 264
#define G_ADDR 304
#define G_MAXARG 70
#define G_MAXMSG 40
#include "gen.h"
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_linkedlist.h"
#include "osc_hashtab.h"
static g_msg M; static g_bndl B; static unsigned char W[65536], OUT[65536];
static int pickn(const int *l, int n){ return l[in_pick(0, n - 1)]; }
#define PICK(...) pickn((const int[]){ __VA_ARGS__ }, (int)(sizeof((const int[]){ __VA_ARGS__ }) / sizeof(int)))
static void longaddr(g_msg *m, int n){ m->addr[0] = '/'; for(int i = 1; i < n; i++) m->addr[i] = 'a' + i % 26; m->addr[n] = 0; m->alen = n; }
static void fill(g_arg *a, int n){ a->len = n; for(int i = 0; i < n; i++) a->b[i] = 'A' + i % 50; if(n){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127) & (c != '"') & (c != '\\') & (c != '\'')); a->b[n - 1] = c; } a->b[n] = 0; }
/* n arguments that go round the types */
static const char RND[] = "isdTbhCfcNtuIFUH";
static void many(g_msg *m, int n, const char *types, int slen){ int k = strlen(types); m->n = n; for(int i = 0; i < n; i++){ g_arg *a = &m->a[i]; memset(a, 0, 16); a->tt = types[i % k]; if(a->tt == 's' || a->tt == 'b') fill(a, slen); else g_value(a); } }
/* W01, W02: a message */
static void message(int big){ longaddr(&M, big == 0 ? PICK(7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300) : 3); const char *ty = big == 1 ? PICK(0, 1) ? "i" : RND : "si"; many(&M, big == 1 ? PICK(4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65) : 2, ty, big == 2 ? PICK(7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) : 5); if(big == 2 && in_pick(0, 1)){ M.a[0].tt = 'b'; } }
void h_message(void){
  message(in_pick(0, 2)); long live0 = vh_live(); int n = g_enc_msg(W, &M); t_osc_msg_u *u = g_build(&M); CHECK((int)osc_message_u_getSerializedSize(u) == n && osc_message_u_getArgCount(u) == M.n, "announced size"); t_osc_msg_s *s = osc_message_u_serialize(u); CHECK(osc_message_s_getSize(s) + 4 == n && vh_same(osc_message_s_getPtr(s), W, n), "the encoding");
  int k = osc_message_u_nserialize(NULL, 0, u); CHECK(k == n, "size query"); char *buf = malloc(n); k = osc_message_u_nserialize(buf, n, u); CHECK(k == n && vh_same(buf, W, n), "bounded at the exact size"); int sh = PICK(1, 4, 8, 17); char *b2 = malloc(n - sh); osc_message_u_nserialize(b2, n - sh, u); free(b2); free(buf);
  CHECK(osc_message_s_getArgCount(s) == M.n && osc_message_u_getArgCount(u) == M.n, "argument count"); CHECK(g_str_eq(osc_message_s_getAddress(s), M.addr), "address"); t_osc_msg_it_s *it = osc_msg_it_s_get(s); for(int i = 0; i < M.n; i++){ CHECK(osc_msg_it_s_hasNext(it), "hasNext"); CHECK(g_eq_s(osc_msg_it_s_next(it), &M.a[i]), "argument in order"); } CHECK(!osc_msg_it_s_hasNext(it), "hasNext is false after the last"); osc_msg_it_s_destroy(it);
  for(int i = M.n - 1; i >= 0; i -= M.n > 8 ? 7 : 1){ t_osc_atom_s *a = NULL; osc_message_s_getArg(s, i, &a); CHECK(a && g_eq_s(a, &M.a[i]), "argument by position"); CHECK(osc_message_s_getTypetag(s, i) == M.a[i].tt, "type by position"); osc_atom_s_free(a); CHECK(g_eq_u(osc_message_u_getArg(u, i), &M.a[i]), "argument by position"); }
  osc_message_s_cacheDataOffsets(s); it = osc_msg_it_s_get(s); for(int i = 0; i < M.n; i++) CHECK(osc_msg_it_s_hasNext(it) && g_eq_s(osc_msg_it_s_next(it), &M.a[i]), "argument in order from the cache"); osc_msg_it_s_destroy(it); for(int i = M.n - 1; i >= 0; i -= M.n > 8 ? 7 : 1){ t_osc_atom_s *a = NULL; osc_message_s_getArg(s, i, &a); CHECK(a && g_eq_s(a, &M.a[i]), "argument by position from the cache"); osc_atom_s_free(a); }
  t_osc_msg_u *v = osc_message_s_deserialize(s); CHECK(g_str_eq(osc_message_u_getAddress(v), M.addr) && osc_message_u_getArgCount(v) == M.n, "deserialised"); t_osc_msg_s *s2 = osc_message_u_serialize(v); CHECK(osc_message_s_getSize(s2) + 4 == n && vh_same(osc_message_s_getPtr(s2), W, n), "serialised again"); osc_message_s_deepFree(s2); t_osc_msg_u *d = NULL; osc_message_u_deepCopy(&d, v); osc_message_u_free(v); s2 = osc_message_u_serialize(d); CHECK(vh_same(osc_message_s_getPtr(s2), W, n), "deep copy"); osc_message_s_deepFree(s2); osc_message_u_free(d);
  osc_message_s_deepFree(s); osc_message_u_free(u); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* W01, W02, W05: an address, a string or a blob whose length needs more than 16 bits */
static unsigned char H[200000];
void h_huge(void){
  int k = in_pick(0, 2), n = PICK(65531, 65532, 65535, 65536, 70001), o; char *p = malloc(n + 8); memset(p, 'q', n + 8); p[0] = p[4] = '/'; int at = in_pick(0, 2) * 8191 + n - 2 * 8191 - 1; uint8_t c = in_u8(); ASSUME((c >= 'a') & (c <= 'z')); p[at] = c; p[n] = 0; long live0 = vh_live(); t_osc_msg_u *u = osc_message_u_alloc(); int32_t x = (int32_t)in_u32(); memset(H, 0, sizeof H);
  const char *ad = k == 0 ? p : "/a"; int la = pad4((k == 0 ? n : 2) + 1), lp = k == 1 ? pad4(n + 1) : k == 2 ? 4 + pad4(n) : 0; osc_message_u_setAddress(u, ad); if(k == 1) osc_message_u_appendString(u, p); if(k == 2){ char *b = malloc(n + 4); wr32(b, n); memcpy(b + 4, p, n); osc_message_u_appendBlob(u, b); free(b); } osc_message_u_appendInt32(u, x);
  o = 4; memcpy(H + o, ad, k == 0 ? n : 2); o += la; memcpy(H + o, k == 0 ? ",i" : k == 1 ? ",si" : ",bi", k ? 3 : 2); o += 4; if(k == 1) memcpy(H + o, p, n); if(k == 2){ wr32(H + o, n); memcpy(H + o + 4, p, n); } o += lp; wr32(H + o, (uint32_t)x); o += 4; wr32(H, o - 4);
  CHECK((int)osc_message_u_getSerializedSize(u) == o, "announced size"); t_osc_msg_s *s = osc_message_u_serialize(u); CHECK(osc_message_s_getSize(s) + 4 == o && vh_same(osc_message_s_getPtr(s), H, o), "the encoding"); CHECK(osc_message_s_getArgCount(s) == 1 + (k > 0), "argument count");
  for(int r = 0; r < 2; r++){ t_osc_atom_s *a = NULL; osc_message_s_getArg(s, k > 0, &a); CHECK(a && osc_atom_s_getTypetag(a) == 'i' && osc_atom_s_getInt32(a) == x, "argument by position"); osc_atom_s_free(a); osc_message_s_cacheDataOffsets(s); }
  t_osc_msg_u *v = osc_message_s_deserialize(s); osc_message_u_free(u); t_osc_msg_s *s2 = osc_message_u_serialize(v); CHECK(osc_message_s_getSize(s2) + 4 == o && vh_same(osc_message_s_getPtr(s2), H, o), "serialised again"); osc_message_s_deepFree(s2); osc_message_u_free(v); osc_message_s_deepFree(s); CHECK(vh_live() == live0, "no heap block is left"); free(p); REACH("done");
}
/* more arguments than a byte counts */
void h_manyargs(void){
  int n = PICK(253, 254, 255, 256, 257, 259, 515), o, w = in_pick(0, 1), q = pickn((const int[]){ 0, 1, 254, n - 1 }, 4); int32_t x = (int32_t)in_u32(); ASSUME(q < n); long live0 = vh_live(); t_osc_msg_u *u = osc_message_u_allocWithAddress("/a"); memset(H, 0, sizeof H); o = 4; memcpy(H + o, "/a", 2); o += 4; H[o] = ','; for(int i = 0; i < n; i++){ int z = w && i % 2; H[o + 1 + i] = z ? 'T' : 'i'; if(z) osc_message_u_appendTrue(u); else osc_message_u_appendInt32(u, i == q ? x : i); } o += pad4(n + 2); for(int i = 0; i < n; i++) if(!(w && i % 2)){ wr32(H + o, i == q ? (uint32_t)x : (uint32_t)i); o += 4; } wr32(H, o - 4);
  CHECK((int)osc_message_u_getSerializedSize(u) == o && osc_message_u_getArgCount(u) == n, "announced size"); t_osc_msg_s *s = osc_message_u_serialize(u); osc_message_u_free(u); CHECK(osc_message_s_getSize(s) + 4 == o && vh_same(osc_message_s_getPtr(s), H, o), "the encoding"); CHECK(osc_message_s_getArgCount(s) == n, "argument count"); t_osc_atom_s *a = NULL; osc_message_s_getArg(s, q, &a); CHECK(a && osc_atom_s_getTypetag(a) == (w && q % 2 ? 'T' : 'i') && (w && q % 2 || osc_atom_s_getInt32(a) == x), "argument by position"); osc_atom_s_free(a);
  t_osc_msg_u *v = osc_message_s_deserialize(s); t_osc_msg_s *s2 = osc_message_u_serialize(v); CHECK(osc_message_s_getSize(s2) + 4 == o && vh_same(osc_message_s_getPtr(s2), H, o), "serialised again"); osc_message_s_deepFree(s2); osc_message_u_free(v); osc_message_s_deepFree(s); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
static void names(int n, const char *types){ B.n = n; B.tt = 0; for(int i = 0; i < n; i++){ g_msg *m = &B.m[i]; sprintf(m->addr, n & 1 ? "/m%d" : "/message%d", i); m->alen = strlen(m->addr); many(m, 1 + i % 2, types, 3); } }
#define SIZES 4, 8, 9, 16, 17, 31, 32, 33, 40
/* W03, W05: a bundle of many messages */
void h_bundle(void){
  names(PICK(SIZES), "isd"); long live0 = vh_live(); int n = g_enc_bndl(W, &B); t_osc_bndl_u *u = g_build_bndl(&B); CHECK(osc_bundle_u_getMsgCount(u) == B.n, "count"); t_osc_bndl_s *s = osc_bundle_u_serialize(u); CHECK(osc_bundle_s_getLen(s) == n && vh_same(osc_bundle_s_getPtr(s), W, n), "the encoding"); CHECK(osc_bundle_u_getSerializedSize(u) == n, "size");
  long c = 0; CHECK(!osc_bundle_s_getMsgCount(n, osc_bundle_s_getPtr(s), &c) && c == B.n, "count"); CHECK(!osc_error_bundleSanityCheck(n, osc_bundle_s_getPtr(s)), "well-formed"); t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, osc_bundle_s_getPtr(s)); for(int i = 0; i < B.n; i++){ CHECK(osc_bndl_it_s_hasNext(it), "hasNext"); t_osc_msg_s *m = osc_bndl_it_s_next(it); CHECK(g_str_eq(osc_message_s_getAddress(m), B.m[i].addr) && osc_message_s_getArgCount(m) == B.m[i].n, "message in order"); } CHECK(!osc_bndl_it_s_hasNext(it), "hasNext is false after the last"); osc_bndl_it_s_destroy(it);
  t_osc_bndl_it_u *iu = osc_bndl_it_u_get(u); for(int i = 0; i < B.n; i++){ CHECK(osc_bndl_it_u_hasNext(iu), "hasNext"); CHECK(g_str_eq(osc_message_u_getAddress(osc_bndl_it_u_next(iu)), B.m[i].addr), "message in order"); } CHECK(!osc_bndl_it_u_hasNext(iu), "hasNext is false after the last"); osc_bndl_it_u_destroy(iu);
  t_osc_bndl_u *v = osc_bundle_s_deserialize(n, osc_bundle_s_getPtr(s)), *d = NULL; CHECK(osc_bundle_u_getMsgCount(v) == B.n, "count"); osc_bundle_u_copy(&d, v); osc_bundle_u_free(v); t_osc_bndl_s *s2 = osc_bundle_u_serialize(d); CHECK(osc_bundle_s_getLen(s2) == n && vh_same(osc_bundle_s_getPtr(s2), W, n), "serialised again"); osc_bundle_s_deepFree(s2); osc_bundle_u_free(d); osc_bundle_s_deepFree(s); osc_bundle_u_free(u); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}

/* B01-B04, B09: edits and searches of a bundle of many messages; the edited place is anywhere */
static unsigned char W2[65536], E[65536]; static g_bndl B2;
static int enc_some(unsigned char *p, uint64_t tt, int (*keep)(int)){ int o = g_enc_header(p, tt); for(int i = 0; i < B.n; i++) if(keep(i)) o += g_enc_msg(p + o, &B.m[i]); return o; }
static int X_, Y_; static int not_x(int i){ return i != X_; } static int is_x(int i){ return i == X_; } static int odd(int i){ return i % Y_ != 0; } static int even(int i){ return i % Y_ == 0; } static int ten(int i){ return i / 10 == 1; } static int all(int i){ return 1; }
static void found(int n, const char *q, int (*is)(int)){
  t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(n, (char *)W, q, 1); int k = 0, o = 16; for(int i = 0; i < B.n; i++){ int z = 4 + (int)rd32(W + o); if(is(i)){ CHECK(ar && k < osc_message_array_s_getLen(ar), "every match"); CHECK(osc_message_s_getPtr(osc_message_array_s_get(ar, k)) == (char *)W + o, "matches in order"); k++; } o += z; } CHECK(k == (ar ? osc_message_array_s_getLen(ar) : 0), "nothing else matches"); if(ar) osc_message_array_s_free(ar);
  t_osc_bndl_u *u = osc_bundle_s_deserialize(n, (char *)W); t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, q, 1); k = 0; for(int i = 0; i < B.n; i++) if(is(i)){ CHECK(au && k < osc_message_array_u_getLen(au) && g_str_eq(osc_message_u_getAddress(osc_message_array_u_get(au, k)), B.m[i].addr), "matches in order"); k++; } CHECK(k == (au ? osc_message_array_u_getLen(au) : 0), "nothing else matches"); if(au) osc_message_array_u_free(au); osc_bundle_u_free(u);
}
void h_lookup(void){ names(PICK(SIZES), "i"); B.tt = in_u64(); int n = g_enc_bndl(W, &B); long live0 = vh_live(); X_ = in_pick(0, 2) * (B.n - 1) / 2; found(n, B.m[X_].addr, is_x); found(n, "/m*", all); found(n, B.n & 1 ? "/m1?" : "/message1?", ten); int ok; osc_bundle_s_addressExists(n, (char *)W, B.m[X_].addr, 1, &ok); CHECK(ok == 1, "exists"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done"); }
void h_edits(void){
  names(PICK(SIZES), "is"); B.tt = in_u64(); int n = g_enc_bndl(W, &B), o; X_ = in_pick(0, 2) * (B.n - 1) / 2; Y_ = PICK(2, 3); long live0 = vh_live();
  char *w = osc_mem_alloc(n); memcpy(w, W, n); long len = n; o = enc_some(E, B.tt, not_x); CHECK(!osc_bundle_s_removeMessage(B.m[X_].addr, &len, w, 1), "removal succeeds"); CHECK(len == o && vh_same(w, E, o), "removal of one message"); osc_mem_free(w);
  t_osc_bndl_u *u = g_build_bndl(&B); osc_bundle_u_removeMessage(u, B.m[X_].addr); CHECK(osc_bundle_u_getMsgCount(u) == B.n - 1, "count after removal"); t_osc_bndl_s *s = osc_bundle_u_serialize(u); wr64(E + 8, 0); CHECK(osc_bundle_s_getLen(s) == o && vh_same(osc_bundle_s_getPtr(s), E, o), "removal of one message"); osc_bundle_s_deepFree(s); osc_bundle_u_free(u);
  /* append one by one */
  len = 0; w = NULL; for(int i = 0; i < B.n; i++){ t_osc_msg_u *m = g_build(&B.m[i]); t_osc_msg_s *ms = osc_message_u_serialize(m); CHECK(!osc_bundle_s_appendMessage(&len, &w, ms), "appending succeeds"); osc_message_s_deepFree(ms); osc_message_u_free(m); } wr64(W + 8, 0); CHECK(len == n && vh_same(w, W, n), "appended one by one"); osc_mem_free(w);
  /* sets */
  wr64(W + 8, 0); int n2 = enc_some(W2, 0, even); w = g_heap(W, n); char *w2 = g_heap(W2, n2), *p = NULL; switch(in_pick(0, 2)){
  case 0: { t_osc_bndl_s *x = osc_bundle_s_alloc(n2, w2), *y = osc_bundle_s_alloc(n, w), *r = osc_bundle_s_union(x, y); o = n2; memcpy(E, W2, n2); for(int i = 0; i < B.n; i++) if(odd(i)) o += g_enc_msg(E + o, &B.m[i]); CHECK(osc_bundle_s_getLen(r) == o && vh_same(osc_bundle_s_getPtr(r), E, o), "union"); osc_bundle_s_deepFree(r); osc_bundle_s_free(x); osc_bundle_s_free(y); break; }
  case 1: len = 0; CHECK(!osc_bundle_s_intersection(n, w, n2, w2, &len, &p), "intersection succeeds"); CHECK(len == n2 && vh_same(p, W2, n2), "intersection"); osc_mem_free(p); break;
  case 2: len = 0; o = enc_some(E, 0, odd); CHECK(!osc_bundle_s_difference(n, w, n2, w2, &len, &p), "difference succeeds"); CHECK(len == o && vh_same(p, E, o), "difference"); osc_mem_free(p); break;
  } free(w); free(w2); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_query(void){
  names(PICK(SIZES), "i"); long live0 = vh_live(); int n = g_enc_bndl(W, &B), k = PICK(1, 8, 9, 17); ASSUME(k <= B.n); char *sel[20] = { 0 }; for(int i = 0; i < k; i++) sel[i] = B.m[B.n - 1 - i].addr; t_osc_rset *rs = NULL; CHECK(!osc_query_select(k, sel, n, (char *)W, 0, &rs) && rs, "selecting succeeds");
  for(int i = 0; i < k; i++){ t_osc_rset_result *r = osc_rset_select(rs, sel[i]); CHECK(r != NULL, "a result for every selector that matched"); t_osc_bndl_s *c = osc_rset_result_getCompleteMatches(r); X_ = B.n - 1 - i; int o = enc_some(E, 0, is_x); CHECK(c && osc_bundle_s_getLen(c) == o && vh_same(osc_bundle_s_getPtr(c) + 16, E + 16, o - 16), "complete matches"); }
  osc_rset_initIterator(rs); for(int i = k; i--; ){ CHECK(osc_rset_hasNext(rs), "results"); t_osc_rset_result *r = osc_rset_next(rs); CHECK(r && !strcmp(osc_rset_result_getSelector(r), sel[i]), "results in order of their first match"); } CHECK(!osc_rset_hasNext(rs), "no more results");
  t_osc_bndl_s *c = osc_rset_getUnmatched(rs); int o = 16; for(int i = 0; i < B.n - k; i++) o += g_enc_msg(E + o, &B.m[i]); CHECK(k == B.n || (c && osc_bundle_s_getLen(c) == o && vh_same(osc_bundle_s_getPtr(c) + 16, E + 16, o - 16)), "unmatched messages"); osc_rset_free(rs); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* B06: long argument lists */
static g_arg *L[80]; static g_arg NEW;
static void seq(t_osc_msg_u *m, int n){ CHECK(osc_message_u_getArgCount(m) == n, "count"); t_osc_msg_it_u *it = osc_msg_it_u_get(m); for(int i = 0; i < n; i++){ CHECK(osc_msg_it_u_hasNext(it), "hasNext"); t_osc_atom_u *a = osc_msg_it_u_next(it); CHECK(a && g_eq_u(a, L[i]), "argument in order"); CHECK(osc_message_u_getArg(m, i) == a, "argument by position"); } CHECK(!osc_msg_it_u_hasNext(it), "the end"); CHECK(!osc_message_u_getArg(m, n), "the end"); osc_msg_it_u_destroy(it); t_osc_msg_s *s = osc_message_u_serialize(m); unsigned char *q = (unsigned char *)osc_message_s_getPtr(s), e[280]; int o = 4 + pad4(M.alen + 1); CHECK(q[o] == ',', "typetags"); for(int i = 0; i < n; i++) CHECK(q[o + 1 + i] == L[i]->tt, "typetags"); o += pad4(n + 2); for(int i = 0; i < n; i++){ int z = g_enc_arg(e, L[i]); CHECK(vh_same(q + o, e, z), "serialised argument"); o += z; } CHECK(osc_message_s_getSize(s) + 4 == o, "size"); osc_message_s_deepFree(s); }
void h_args(void){
  int n = PICK(4, 8, 9, 16, 17, 32, 33); longaddr(&M, 5); many(&M, n, "is", 3); long live0 = vh_live(); t_osc_msg_u *m = g_build(&M); for(int i = 0; i < n; i++) L[i] = &M.a[i]; seq(m, n); NEW.tt = 'i'; NEW.bits = in_u32(); t_osc_atom_u *x = osc_atom_u_alloc(); g_set(x, &NEW); int k = in_pick(0, 4), pos = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 2 : k == 3 ? n - 1 : n; osc_message_u_insertAtom(m, x, pos); memmove(L + pos + 1, L + pos, (n - pos) * sizeof *L); L[pos] = &NEW; seq(m, n + 1);
  int d = in_pick(0, 3), at = d == 0 ? 0 : d == 1 ? n / 2 + 1 : d == 2 ? n - 1 : n; x = osc_message_u_getArg(m, at); CHECK(x && g_eq_u(x, L[at]), "argument by position"); osc_message_u_removeAtom(m, x); osc_atom_u_free(x); memmove(L + at, L + at + 1, (n - at) * sizeof *L); seq(m, n);
  t_osc_atom_ar_u *ar = osc_message_u_getArgArrayCopy(m); CHECK(osc_atom_array_u_getLen(ar) == n, "length"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(ar, i), L[i]), "copied argument"); osc_atom_array_u_free(ar); osc_message_u_free(m); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* D01, D03 */
void h_list(void){
  static char C[40]; int n = PICK(5, 8, 9, 16, 17, 33); long live0 = vh_live(); t_osc_linkedlist *l = osc_linkedlist_new(NULL); for(int i = 0; i < n; i++) if(i % 3 == 2) osc_linkedlist_prepend(l, C + i); else osc_linkedlist_append(l, C + i); int S[40], k = 0; for(int i = n - 1; i >= 0; i--) if(i % 3 == 2) S[k++] = i; for(int i = 0; i < n; i++) if(i % 3 != 2) S[k++] = i;
  uint8_t x = in_u8(); ASSUME(x < n); int i = (int)vh_concretize(x); CHECK(osc_linkedlist_getCount(l) == n, "count"); CHECK(osc_linkedlist_peekNth(l, i) == C + S[i], "element"); CHECK(osc_linkedlist_popNth(l, i) == C + S[i], "popped element"); memmove(S + i, S + i + 1, (n - 1 - i) * sizeof *S); n--; CHECK(osc_linkedlist_getCount(l) == n, "count"); for(int j = 0; j < n; j++) CHECK(osc_linkedlist_peekNth(l, j) == C + S[j], "the others keep their order"); CHECK(osc_linkedlist_peekTail(l) == C + S[n - 1], "tail"); while(n) CHECK(osc_linkedlist_popTail(l) == C + S[--n], "from the end"); osc_linkedlist_destroy(l); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_arrays(void){
  int n = PICK(5, 8, 9, 16, 17, 33, 65); long live0 = vh_live(); many(&M, n, "ish", 3); t_osc_atom_ar_u *a = osc_atom_array_u_alloc(n); CHECK(osc_atom_array_u_getLen(a) == n, "length"); for(int i = 0; i < n; i++) g_set(osc_atom_array_u_get(a, i), &M.a[i]); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(a, i), &M.a[i]), "element"); CHECK(!osc_atom_array_u_get(a, n) && !osc_atom_array_u_get(a, -1), "no other element"); t_osc_atom_ar_u *c = osc_atom_array_u_copy(a); osc_atom_array_u_copyInto(&c, a, n); CHECK(osc_atom_array_u_getLen(c) == 2 * n, "length"); for(int i = 0; i < 2 * n; i++) CHECK(g_eq_u(osc_atom_array_u_get(c, i), &M.a[i % n]), "element of the copy"); osc_atom_array_u_free(a); osc_atom_array_u_free(c);
  if(n == 5){ static char S[4][1300], J[6000]; int k = in_pick(1, 4), o = 0; t_osc_atom_ar_u *s = osc_atom_array_u_alloc(k); const char *sep = in_pick(0, 1) ? ", " : NULL; for(int i = 0; i < k; i++){ int z = PICK(0, 7, 127, 254, 255, 256, 300, 1200); memset(S[i], 'a' + i, z); if(z) S[i][z - 1] = 'Z'; S[i][z] = 0; osc_atom_u_setString(osc_atom_array_u_get(s, i), S[i]); memcpy(J + o, S[i], z); o += z; if(sep){ memcpy(J + o, sep, 2); o += 2; } } J[o++] = 0;
    int own = in_pick(0, 1); char *out = own ? malloc(130) : NULL; long len = own ? 130 : 0; CHECK(osc_atom_array_u_getStringArray(s, &len, &out, sep) == OSC_ERR_NONE, "succeeds"); CHECK(len == o && vh_same(out, J, o), "joined strings"); free(out); osc_atom_array_u_free(s); }
  t_osc_array *r = osc_array_allocWithSize(n, 4); for(int i = 0; i < n; i++) *(uint32_t *)osc_array_get(r, i) = i * 7; int z = PICK(3, 16, 40, 200); osc_array_resize(r, z); CHECK(osc_array_getLen(r) == z, "length"); for(int i = 0; i < n && i < z; i++) CHECK(*(uint32_t *)osc_array_get(r, i) == i * 7, "the elements that remain"); osc_array_free(r); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
