#include "gen.h"
#include "osc_message_u.r"
#include "osc_vtable.h"
#include "osc_dispatch.h"
#ifndef NMSG
#define NMSG 2
#endif
#ifndef MLEN
#define MLEN 5
#endif
#ifndef QLEN
#define QLEN 3
#endif
static g_bndl B, B2; static unsigned char REF[512], REF2[512], E[512];
/* address over a small alphabet; specials: 0 only letters, 1 also '/', 2 also wildcards */
static int addr(char *a, int lo, int hi, int sp){ int n = in_pick(lo, hi); a[0] = '/'; for(int i = 1; i < n; i++){ uint8_t c = in_u8(); if(sp == 0) ASSUME((c == 'a') | (c == 'b')); else if(sp == 1) ASSUME((c == 'a') | (c == 'b') | (c == '/')); else ASSUME((c == 'a') | (c == 'b') | (c == '/') | (c == '*') | (c == '?')); a[i] = c; } a[n] = 0; return n; }
static void msg(g_msg *m, int amax, int sp, int narg){ m->alen = addr(m->addr, 1, amax, sp); m->n = in_pick(0, narg); for(int i = 0; i < m->n; i++){ m->a[i].tt = 'i'; m->a[i].bits = in_u32(); } }
/* reference matcher for literals, '?' and '*': 3 both consumed, 2 pattern consumed, 1 address consumed, 0 none */
static int ref_match(const char *p, int np, const char *a, int na){
  unsigned char r[16], q[16]; memset(r, 0, 16); r[0] = 1; int ac = 0, pc = 0;
  for(int i = 0; i < np; i++){
    memset(q, 0, 16); int isl = p[i] == '/', ist = p[i] == '*', isq = p[i] == '?'; ac |= r[na] & isl;
    for(int j = 0; j <= na; j++){ q[j] |= r[j] & ist; if(j < na){ q[j + 1] |= q[j] & ist & (a[j] != '/'); q[j + 1] |= r[j] & !ist & ((isq & (a[j] != '/')) | (!isq & (p[i] == a[j]))); } }
    memcpy(r, q, 16);
  }
  for(int j = 1; j < na; j++) pc |= r[j] & (a[j] == '/');
  return r[na] ? 3 : pc ? 2 : ac ? 1 : 0;
}
static int eqaddr(const g_msg *a, const g_msg *b){ return a->alen == b->alen && vh_same(a->addr, b->addr, a->alen); }
/* B01 */
void h_lookup(void){
  B.tt = 0; B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++) msg(&B.m[i], 3, 1, 1);
  int n = g_enc_bndl(REF, &B); char *w = g_heap(REF, n); char q[8]; int nq = addr(q, 1, QLEN, 2); int full = in_pick(0, 1);
  int hit[G_MAXMSG], cnt = 0, first = -1, bound = 0, firstfull = -1, eq = -1, off[4]; int k = g_walk(REF, n, off, 4); CHECK(k == B.n, "count");
  for(int i = 0; i < B.n; i++){ int r = ref_match(q, nq, B.m[i].addr, B.m[i].alen); hit[i] = full ? r == 3 : r != 0; if(r == 3 && firstfull < 0) firstfull = i; if(hit[i]){ cnt++; if(first < 0) first = i; bound |= B.m[i].n > 0; } if(eq < 0 && nq == B.m[i].alen && vh_same(q, B.m[i].addr, nq)) eq = i; }
  int res = -1; CHECK(osc_bundle_s_addressExists(n, w, q, full, &res) == OSC_ERR_NONE && res == (cnt > 0), "address exists");
  res = -1; CHECK(osc_bundle_s_addressIsBound(n, w, q, full, &res) == OSC_ERR_NONE && res == bound, "address is bound");
  t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(n, w, q, full); CHECK((ar == NULL ? 0 : (int)osc_message_array_s_getLen(ar)) == cnt, "number of matches");
  int j = 0; for(int i = 0; i < B.n; i++) if(hit[i]){ t_osc_msg_s *m = osc_message_array_s_get(ar, j++); CHECK(m && osc_message_s_getPtr(m) == w + off[i] && osc_message_s_getAddress(m) == w + off[i] + 4 && osc_message_s_getArgCount(m) == B.m[i].n, "matching message, in order"); }
  if(ar){ CHECK(osc_message_array_s_get(ar, cnt) == NULL, "nothing beyond the matches"); osc_message_array_s_free(ar); }
  CHECK(osc_bundle_s_getFirstFullMatch(n, w, q) == (firstfull < 0 ? NULL : w + off[firstfull]), "first full match"); CHECK(osc_bundle_s_getFirstEqualAddr(n, w, q) == (eq < 0 ? NULL : w + off[eq]), "first equal address");
  CHECK(vh_same(w, REF, n), "lookups do not write");
  if(cnt) REACH("hit"); else REACH("miss"); free(w);
}
void h_lookup_u(void){
  long live0 = vh_live();
  B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++) msg(&B.m[i], 3, 1, 1);
  t_osc_bndl_u *u = g_build_bndl(&B); char q[8]; int nq = addr(q, 1, QLEN, 2); int full = in_pick(0, 1);
  int hit[G_MAXMSG], cnt = 0, bound = 0, firstfull = -1;
  for(int i = 0; i < B.n; i++){ int r = ref_match(q, nq, B.m[i].addr, B.m[i].alen); hit[i] = full ? r == 3 : r != 0; if(r == 3 && firstfull < 0) firstfull = i; if(hit[i]){ cnt++; bound |= B.m[i].n > 0; } }
  int res = -1; CHECK(osc_bundle_u_addressExists(u, q, full, &res) == OSC_ERR_NONE && res == (cnt > 0), "address exists");
  res = -1; CHECK(osc_bundle_u_addressIsBound(u, q, full, &res) == OSC_ERR_NONE && res == bound, "address is bound");
  t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(u, q, full); CHECK((int)osc_message_array_u_getLen(ar) == cnt, "number of matches");
  int j = 0; for(int i = 0; i < B.n; i++) if(hit[i]){ t_osc_msg_u *m = osc_message_array_u_get(ar, j++); CHECK(m && g_str_eq(osc_message_u_getAddress(m), B.m[i].addr) && osc_message_u_getArgCount(m) == B.m[i].n, "matching message, in order"); if(B.m[i].n){ t_osc_atom_u *x = osc_message_u_getArg(m, 0); CHECK(g_eq_u(x, &B.m[i].a[0]), "matching message has its value"); } }
  osc_message_array_u_free(ar);
  t_osc_msg_u *ff = osc_bundle_u_getFirstFullMatch(u, q); t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); for(int i = 0; i < firstfull; i++) m = osc_message_u_next(m); CHECK(ff == (firstfull < 0 ? NULL : m), "first full match");
  osc_bundle_u_free(u); CHECK(vh_live() == live0, "no heap block is left"); if(cnt) REACH("hit"); else REACH("miss");
}
/* messages that have no typetags at all */
void h_lookup_bare(void){
  int n = 16, N = in_pick(1, 3), hit[3], bound = 0, cnt = 0, off[3]; memset(REF, 0, 64); memcpy(REF, "#bundle", 8);
  for(int i = 0; i < N; i++){ int kind = in_pick(0, 2), sz = kind == 0 ? 4 : kind == 1 ? 8 : 12; hit[i] = in_pick(0, 1); off[i] = n; memset(REF + n, 0, 16); REF[n + 3] = sz; REF[n + 4] = '/'; REF[n + 5] = hit[i] ? 'a' : 'b'; if(kind) REF[n + 8] = ','; if(kind == 2){ REF[n + 9] = 'i'; for(int j = 0; j < 4; j++) REF[n + 12 + j] = in_u8(); } cnt += hit[i]; bound |= hit[i] && kind == 2; n += 4 + sz; }
  char *w = g_heap(REF, n); int full = in_pick(0, 1), res = -1; CHECK(osc_error_bundleSanityCheck(n, w) == OSC_ERR_NONE, "the bundle is well-formed"); CHECK(osc_bundle_s_addressIsBound(n, w, "/a", full, &res) == OSC_ERR_NONE && res == bound, "address is bound"); res = -1; CHECK(osc_bundle_s_addressExists(n, w, "/a", full, &res) == OSC_ERR_NONE && res == (cnt > 0), "address exists");
  t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(n, w, "/a", full); CHECK((ar == NULL ? 0 : (int)osc_message_array_s_getLen(ar)) == cnt, "number of matches"); int j = 0; for(int i = 0; i < N; i++) if(hit[i]){ t_osc_msg_s *m = osc_message_array_s_get(ar, j++); CHECK(m && osc_message_s_getPtr(m) == w + off[i] && osc_message_s_getArgCount(m) == (REF[off[i] + 3] == 12), "matching message, in order"); } if(ar) osc_message_array_s_free(ar);
  CHECK(vh_same(w, REF, n), "lookups do not write"); free(w); REACH("done");
}
/* more matches than the first chunk of the result array */
void h_lookup_many(void){
  int n = in_pick(0, 4); static const int K[] = {15, 16, 17, 32, 33}; n = K[n]; unsigned char *buf = malloc(16 + n * 16); int o = g_enc_header(buf, 0); uint32_t *v = malloc(n * 4);
  for(int i = 0; i < n; i++){ g_msg m; g_simple(&m, "/a", 1); v[i] = (uint32_t)m.a[0].bits; o += g_enc_msg(buf + o, &m); }
  t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(o, (char *)buf, "/a", 1); CHECK(ar && osc_message_array_s_getLen(ar) == n, "number of matches"); for(int i = 0; i < n; i++){ t_osc_msg_s *m = osc_message_array_s_get(ar, i); CHECK(osc_message_s_getPtr(m) == (char *)buf + 16 + 16 * i && osc_message_s_getArgCount(m) == 1, "match"); } osc_message_array_s_free(ar);
  t_osc_bndl_u *u = osc_bundle_s_deserialize(o, (char *)buf); t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, "/a", 1); CHECK(au && osc_message_array_u_getLen(au) == n, "number of matches"); for(int i = 0; i < n; i++){ t_osc_atom_u *x = osc_message_u_getArg(osc_message_array_u_get(au, i), 0); CHECK((uint32_t)osc_atom_u_getInt32(x) == v[i], "match value"); } osc_message_array_u_free(au); osc_bundle_u_free(u); free(buf); free(v); REACH("done");
}
/* a malformed pattern selects nothing */
void h_lookup_malformed(void){
  static const char *const P[] = { "/[a", "/{a", "/a]", "/b}", "/[b-a]", "a" }; int k = in_pick(0, 5); B.tt = 0; B.n = 1; msg(&B.m[0], 3, 0, 1); int n = g_enc_bndl(REF, &B); int po, ao; 
  if(osc_match(P[k], B.m[0].addr, &po, &ao) < 0x100) return; int full = in_pick(0, 1), r = 1; osc_bundle_s_addressExists(n, (char *)REF, (char *)P[k], full, &r); CHECK(r == 0, "a malformed pattern matches nothing"); r = 1; osc_bundle_s_addressIsBound(n, (char *)REF, (char *)P[k], full, &r); CHECK(r == 0, "a malformed pattern is not bound"); CHECK(osc_bundle_s_lookupAddress(n, (char *)REF, P[k], full) == NULL, "a malformed pattern selects nothing");
  t_osc_bndl_u *u = g_build_bndl(&B); r = 1; osc_bundle_u_addressExists(u, (char *)P[k], full, &r); CHECK(r == 0, "a malformed pattern matches nothing"); t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(u, P[k], full); CHECK(osc_message_array_u_getLen(ar) == 0, "a malformed pattern selects nothing"); osc_message_array_u_free(ar); osc_bundle_u_free(u); REACH("done");
}
/* B02 */
static void anymsg(g_msg *m, int k){ m->alen = g_addr_chars(m->addr, 2, k ? 2 : 5, 1); m->n = in_pick(0, 2); for(int i = 0; i < m->n; i++) g_arg_any(&m->a[i], i ? "i" : "isbhT"); }
void h_append(void){
  long live0 = vh_live(); long len = 0; char *p = NULL; int o; B.tt = in_u64(); B.n = 0;
  if(in_pick(0, 1)){ B.n = in_pick(0, 1); if(B.n) anymsg(&B.m[0], 1); len = g_enc_bndl(REF, &B); p = g_heap(REF, len); o = len; } else { o = g_enc_header(REF, 0); }
  int k = in_pick(0, 2);
  for(int i = 0; i < k; i++){ g_msg m; anymsg(&m, i); unsigned char e[64]; int n = g_enc_msg(e, &m); char *w = g_heap(e, n); memcpy(REF + o, e, n); o += n; t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, w); CHECK(osc_bundle_s_appendMessage(&len, &p, s) == OSC_ERR_NONE, "append succeeds"); CHECK(vh_same(w, e, n), "the appended message is unchanged"); osc_message_s_free(s); free(w);
    CHECK(p && len == o, "length after appending"); CHECK(vh_same(p, REF, o), "bytes after appending"); CHECK(osc_error_bundleSanityCheck(len, p) == OSC_ERR_NONE, "bundle is well-formed"); int c = -1; CHECK(osc_bundle_s_getMsgCount(len, p, &c) == OSC_ERR_NONE && c == B.n + i + 1, "message count"); }
  CHECK(osc_bundle_s_appendMessage(&len, &p, NULL) == OSC_ERR_NONE && len == (p ? o : 0), "appending nothing changes nothing"); if(p) CHECK(vh_same(p, REF, o), "appending nothing changes nothing");
  free(p); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_append_b(void){
  long live0 = vh_live(); t_osc_bndl_s *b = NULL; if(in_pick(0, 1)) b = osc_bundle_s_allocEmptyBundle(); int o = g_enc_header(REF, 0); if(b){ CHECK(osc_bundle_s_getLen(b) == 16 && vh_same(osc_bundle_s_getPtr(b), REF, 16), "empty bundle"); uint64_t t = in_u64(); osc_bundle_s_setTimetag(16, osc_bundle_s_getPtr(b), g_tt(t)); wr64(REF + 8, t); CHECK(g_ttbits(osc_bundle_s_getTimetag(16, osc_bundle_s_getPtr(b))) == t, "timetag of a bundle"); CHECK(vh_same(osc_bundle_s_getPtr(b), REF, 16), "header with timetag"); CHECK(osc_bundle_s_strcmpID(osc_bundle_s_getPtr(b)) == 0, "identifier"); }
  int k = in_pick(1, 2);
  for(int i = 0; i < k; i++){ g_msg m; anymsg(&m, 1); unsigned char e[64]; int n = g_enc_msg(e, &m); memcpy(REF + o, e, n); o += n; t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, (char *)e); CHECK(osc_bundle_s_appendMessage_b(&b, s) == OSC_ERR_NONE, "append succeeds"); osc_message_s_free(s); }
  CHECK(osc_bundle_s_getLen(b) == o && vh_same(osc_bundle_s_getPtr(b), REF, o), "bytes after appending"); CHECK(osc_error_bundleSanityCheck(o, osc_bundle_s_getPtr(b)) == OSC_ERR_NONE, "bundle is well-formed");
  t_osc_msg_s *f = osc_bundle_s_getFirstMsg(b); CHECK(f && osc_message_s_getPtr(f) == osc_bundle_s_getPtr(b) + 16, "first message"); osc_message_s_free(f);
  osc_bundle_s_deepFree(b); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_wrapmsg(void){
  long live0 = vh_live(); g_msg m; anymsg(&m, 0); unsigned char e[96]; g_enc_header(e, 0); int n = g_enc_msg(e + 16, &m); int own = in_pick(0, 1);
  char *src = g_heap(e + 20, n - 4); long len = -1; char *p = own ? malloc(16 + n) : NULL; char al = 9; CHECK(osc_bundle_s_wrapMessage(n - 4, src, &len, &p, &al) == OSC_ERR_NONE && al == !own, "wrapping allocates only when asked"); CHECK(len == 16 + n && vh_same(p, e, 16 + n), "wrapped message"); CHECK(osc_error_bundleSanityCheck(len, p) == OSC_ERR_NONE, "bundle is well-formed"); free(p); free(src);
  /* header helpers */
  t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL); int pre = in_pick(0, 2); if(pre == 1){ osc_bundle_s_setPtr(b, malloc(4)); osc_bundle_s_setLen(b, 4); } else if(pre == 2){ osc_bundle_s_setPtr(b, malloc(24)); osc_bundle_s_setLen(b, 24); }
  CHECK(osc_bundle_s_setBundleID_b(b) == OSC_ERR_NONE && osc_bundle_s_getLen(b) == 16 && vh_same(osc_bundle_s_getPtr(b), e, 16), "identifier and cleared timetag"); osc_bundle_s_deepFree(b);
  char h[16]; memset(h, 0, 16); osc_bundle_s_setBundleID(h); CHECK(vh_same(h, e, 16), "identifier"); char x[8]; for(int i = 0; i < 8; i++) x[i] = in_u8(); CHECK((osc_bundle_s_strcmpID(x) == 0) == vh_same(x, "#bundle\0", 8) || x[0] == 0, "identifier comparison");
  CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_concat(void){
  B.tt = in_u64(); B2.tt = in_u64(); B.n = in_pick(0, 1); B2.n = in_pick(0, 2); for(int i = 0; i < B.n; i++) anymsg(&B.m[i], 0); for(int i = 0; i < B2.n; i++) anymsg(&B2.m[i], 1);
  int n = g_enc_bndl(REF, &B), m = g_enc_bndl(REF2, &B2); char *a = g_heap(REF, n), *b = g_heap(REF2, m); int na = in_pick(0, 1), nb = in_pick(0, 1); int e = na && nb ? 0 : na ? m : nb ? n : n + m - 16; char *d = malloc(e ? e : 1);
  int r = osc_bundle_s_concat(n, na ? NULL : a, m, nb ? NULL : b, d); CHECK(r == e, "length of a concatenation"); if(na && !nb) CHECK(vh_same(d, REF2, m), "only the second bundle"); else if(!na){ CHECK(vh_same(d, REF, n), "first bundle"); if(!nb) CHECK(vh_same(d + n, REF2 + 16, m - 16), "messages of the second bundle"); } if(e) CHECK(osc_error_bundleSanityCheck(e, d) == OSC_ERR_NONE, "bundle is well-formed");
  free(a); free(b); free(d); REACH("done");
}
/* B03 */
void h_remove(void){
  B.tt = in_u64(); B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++) msg(&B.m[i], 4, 0, i == 0 ? 2 : 1); int n = g_enc_bndl(REF, &B); char *w = g_heap(REF, n); char q[8]; int nq = addr(q, 1, 4, 0);
  int o = g_enc_header(E, B.tt), kept = 0; for(int i = 0; i < B.n; i++) if(!(nq == B.m[i].alen && vh_same(q, B.m[i].addr, nq))){ o += g_enc_msg(E + o, &B.m[i]); kept++; }
  long len = n; CHECK(osc_bundle_s_removeMessage(q, &len, w, 1) == OSC_ERR_NONE, "removal succeeds"); CHECK(len == o, "length after removal"); CHECK(vh_same(w, E, o), "bytes after removal"); CHECK(osc_error_bundleSanityCheck(len, w) == OSC_ERR_NONE, "bundle is well-formed");
  /* the unserialised form */
  long live0 = vh_live(); t_osc_bndl_u *u = g_build_bndl(&B); osc_bundle_u_removeMessage(u, q); CHECK(osc_bundle_u_getMsgCount(u) == kept, "message count after removal"); wr64(E + 8, 0); t_osc_bndl_s *s = osc_bundle_u_serialize(u); CHECK(osc_bundle_s_getLen(s) == o && vh_same(osc_bundle_s_getPtr(s), E, o), "unserialised bundle after removal"); osc_bundle_s_deepFree(s); osc_bundle_u_free(u); CHECK(vh_live() == live0, "no heap block is left");
  free(w); if(kept < B.n) REACH("removed"); else REACH("absent");
}
void h_rename(void){
  g_msg m; anymsg(&m, 0); unsigned char e[96], x[96]; int n = g_enc_msg(e, &m), bare = in_pick(0, 1); if(bare){ n = 4 + pad4(m.alen + 1); wr32(e, n - 4); m.n = 0; } char *w = g_heap(e, n);
  char a[12]; int l = in_pick(0, 9); for(int i = 0; i < l; i++){ uint8_t c = in_u8(); if(i == 0) ASSUME((c == '/') | (c == 'x') | (c == ' ')); else ASSUME((c == '/') | (c == 'x') | (c == '#')); a[i] = c; } a[l] = 0; int ok = l >= 2 && a[0] == '/'; for(int i = 0; i < l; i++) ok &= a[i] != '#' && a[i] != ' ';
  g_msg r = m; int cap = 0; if(l < 31){ memcpy(r.addr, a, l + 1); r.alen = l; } int en = g_enc_msg(x, &r); if(bare){ en = 4 + pad4(l + 1); wr32(x, en - 4); } cap = en; char *d = malloc(cap);
  t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, w); int32_t k = osc_message_s_renameCopy(d, s, l, a);
  if(ok){ CHECK(k == en - 4, "size of the renamed message"); CHECK(vh_same(d, x, en), "renamed message"); REACH("renamed"); } else { CHECK(k == 0, "an illegal address is refused"); REACH("refused"); }
  CHECK(vh_same(w, e, n), "the source is unchanged"); osc_message_s_free(s); free(w); free(d);
}
void h_replace(void){
  B.tt = in_u64(); B.n = in_pick(1, NMSG); for(int i = 0; i < B.n; i++) anymsg(&B.m[i], 1); int n = g_enc_bndl(REF, &B), off[4]; g_walk(REF, n, off, 4); int slack = in_pick(0, 1) * 8; char *w = malloc(n + slack); memcpy(w, REF, n); int k = in_pick(0, B.n - 1); g_msg m; anymsg(&m, 0); unsigned char e[96]; int nm = g_enc_msg(e, &m); char *nw = g_heap(e, nm);
  int o = g_enc_header(E, B.tt); for(int i = 0; i < B.n; i++) o += g_enc_msg(E + o, i == k ? &m : &B.m[i]);
  t_osc_msg_s *os = osc_message_s_alloc(), *ns = osc_message_s_alloc(); osc_message_s_wrap(os, w + off[k]); osc_message_s_wrap(ns, nw); long bl = n + slack, bp = n; CHECK(osc_bundle_s_replaceMessage(&bl, &bp, &w, os, ns) == OSC_ERR_NONE, "replacing succeeds");
  CHECK(bp == o && bl >= bp, "length after replacing"); CHECK(vh_same(w, E, o), "bytes after replacing"); CHECK(osc_error_bundleSanityCheck(bp, w) == OSC_ERR_NONE, "bundle is well-formed"); osc_message_s_free(os); osc_message_s_free(ns); free(w); free(nw); REACH("done");
}
/* B04: expected results as lists of messages */
static int contains(const g_msg *const *l, int n, const g_msg *m){ for(int i = 0; i < n; i++) if(eqaddr(l[i], m)) return 1; return 0; }
static int enc_list(unsigned char *p, uint64_t tt, const g_msg *const *l, int n){ int o = g_enc_header(p, tt); for(int i = 0; i < n; i++) o += g_enc_msg(p + o, l[i]); return o; }
static void two(int na, int nb){ B.tt = in_u64(); B2.tt = in_u64(); B.n = in_pick(0, na); B2.n = in_pick(0, nb); for(int i = 0; i < B.n; i++) msg(&B.m[i], 3, 0, i == 0); for(int i = 0; i < B2.n; i++) msg(&B2.m[i], 3, 0, i == 0); }
void h_set_s(void){
  long live0 = vh_live(); two(NMSG, NMSG); int n1 = g_enc_bndl(REF, &B), n2 = g_enc_bndl(REF2, &B2); char *a = g_heap(REF, n1), *b = g_heap(REF2, n2); const g_msg *L[12], *R1[4], *R2[4]; int n = 0, o; for(int i = 0; i < B.n; i++) R1[i] = &B.m[i]; for(int i = 0; i < B2.n; i++) R2[i] = &B2.m[i];
  long len = -1; char *p = NULL;
  switch(in_pick(0, 2)){
  case 0: { t_osc_bndl_s *x = osc_bundle_s_alloc(n1, a), *y = osc_bundle_s_alloc(n2, b), *r = osc_bundle_s_union(x, y); for(int i = 0; i < B.n; i++) L[n++] = &B.m[i]; for(int i = 0; i < B2.n; i++) if(!contains(L, n, &B2.m[i])) L[n++] = &B2.m[i]; len = osc_bundle_s_getLen(r); p = osc_bundle_s_getPtr(r); osc_bundle_s_free(r); osc_bundle_s_free(x); osc_bundle_s_free(y); REACH("union"); break; }
  case 1: CHECK(osc_bundle_s_intersection(n1, a, n2, b, &len, &p) == OSC_ERR_NONE, "intersection succeeds"); for(int i = 0; i < B.n; i++) if(contains(R2, B2.n, &B.m[i]) && !contains(L, n, &B.m[i])) L[n++] = &B.m[i]; REACH("intersection"); break;
  case 2: CHECK(osc_bundle_s_difference(n1, a, n2, b, &len, &p) == OSC_ERR_NONE, "difference succeeds"); for(int i = 0; i < B.n; i++) if(!contains(R2, B2.n, &B.m[i]) && !contains(L, n, &B.m[i])) L[n++] = &B.m[i]; for(int i = 0; i < B2.n; i++) if(!contains(R1, B.n, &B2.m[i]) && !contains(L, n, &B2.m[i])) L[n++] = &B2.m[i]; REACH("difference"); break;
  }
  uint64_t tt = len >= 16 && p ? rd64(p + 8) : 0; CHECK(tt == B.tt || tt == 0, "timetag of the result"); o = enc_list(E, tt, L, n); CHECK(len == o, "length of the result"); CHECK(vh_same(p, E, o), "messages of the result"); CHECK(osc_error_bundleSanityCheck(len, p) == OSC_ERR_NONE, "result is well-formed");
  CHECK(vh_same(a, REF, n1) && vh_same(b, REF2, n2), "operands unchanged"); free(p); free(a); free(b); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* operands that have no bytes at all are empty bundles */
void h_set_void(void){
  long live0 = vh_live(); int left = in_pick(0, 1), op = in_pick(0, 2); B.tt = in_u64(); B.n = in_pick(0, 3); for(int i = 0; i < B.n; i++){ msg(&B.m[i], 3, 0, 1); for(int j = 0; j < i; j++) ASSUME(!eqaddr(&B.m[i], &B.m[j])); }
  int no = B.n < 3 && in_pick(0, 1) && B.n == 0, n1 = no ? 0 : g_enc_bndl(REF, &B); char *a = no ? NULL : g_heap(REF, n1); const g_msg *L[4]; for(int i = 0; i < B.n; i++) L[i] = &B.m[i]; long len = -1; char *p = NULL;
  if(op == 0){ t_osc_bndl_s *x = osc_bundle_s_alloc(n1, a), *y = osc_bundle_s_alloc(0, NULL), *r = left ? osc_bundle_s_union(y, x) : osc_bundle_s_union(x, y); CHECK(r != NULL, "the union is a bundle"); len = osc_bundle_s_getLen(r); p = osc_bundle_s_getPtr(r); osc_bundle_s_free(r); osc_bundle_s_free(x); osc_bundle_s_free(y); }
  else if(op == 1) CHECK((left ? osc_bundle_s_intersection(0, NULL, n1, a, &len, &p) : osc_bundle_s_intersection(n1, a, 0, NULL, &len, &p)) == OSC_ERR_NONE, "intersection succeeds");
  else CHECK((left ? osc_bundle_s_difference(0, NULL, n1, a, &len, &p) : osc_bundle_s_difference(n1, a, 0, NULL, &len, &p)) == OSC_ERR_NONE, "difference succeeds");
  CHECK(len >= 16 && p, "the result has a header"); uint64_t tt = rd64(p + 8); CHECK(tt == B.tt || tt == 0, "timetag of the result"); int o = enc_list(E, tt, L, op == 1 ? 0 : B.n); CHECK(len == o && vh_same(p, E, o), "messages of the result"); if(a) CHECK(vh_same(a, REF, n1), "operand unchanged"); free(p); free(a); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* B05 */
static void check_u(t_osc_bndl_u *u, const g_msg *const *l, int n, int order){
  CHECK(osc_bundle_u_getMsgCount(u) == n, "announced message count"); int o = enc_list(E, 0, l, n); (void)order;
  t_osc_bndl_it_u *it = osc_bndl_it_u_get(u); int k = 0; t_osc_msg_u *prev = NULL; while(osc_bndl_it_u_hasNext(it)){ t_osc_msg_u *m = osc_bndl_it_u_next(it); CHECK(m->prev == prev, "backward links agree with forward links"); prev = m; CHECK(++k <= n, "number of messages"); } osc_bndl_it_u_destroy(it); CHECK(k == n, "number of messages");
  t_osc_bndl_s *s = osc_bundle_u_serialize(u); CHECK(osc_bundle_s_getLen(s) == o && vh_same(osc_bundle_s_getPtr(s), E, o), "messages and order"); osc_bundle_s_deepFree(s); }
void h_set_u(void){
  long live0 = vh_live(); two(NMSG, NMSG); t_osc_bndl_u *a = g_build_bndl(&B), *b = g_build_bndl(&B2), *r = NULL; const g_msg *L[12], *R2[4]; int n = 0; for(int i = 0; i < B2.n; i++) R2[i] = &B2.m[i];
  if(in_pick(0, 1)){ CHECK(osc_bundle_u_union(a, b, &r) == OSC_ERR_NONE, "union succeeds"); for(int i = 0; i < B.n; i++) if(!contains(L, n, &B.m[i])) L[n++] = &B.m[i]; for(int i = 0; i < B2.n; i++) if(!contains(L, n, &B2.m[i])) L[n++] = &B2.m[i]; REACH("union"); }
  else { CHECK(osc_bundle_u_intersection(a, b, &r) == OSC_ERR_NONE, "intersection succeeds"); for(int i = 0; i < B.n; i++) if(contains(R2, B2.n, &B.m[i]) && !contains(L, n, &B.m[i])) L[n++] = &B.m[i]; REACH("intersection"); }
  check_u(r, L, n, 1); const g_msg *x[4]; for(int i = 0; i < B.n; i++) x[i] = &B.m[i]; check_u(a, x, B.n, 1); check_u(b, R2, B2.n, 1);
  osc_bundle_u_free(a); osc_bundle_u_free(b); check_u(r, L, n, 1); osc_bundle_u_free(r); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
#ifndef NOPS
#define NOPS 3
#endif
static g_msg POOL[6];
/* sequences of list edits against a model */
void h_edit_u(void){
  long live0 = vh_live(); t_osc_bndl_u *u = osc_bundle_u_alloc(); const g_msg *L[8]; int n = 0; int k = in_pick(0, NOPS);
  for(int s = 0; s < k; s++){
    g_msg *m = &POOL[s]; m->alen = addr(m->addr, 2, 2, 0); m->n = 1; m->a[0].tt = s == 1 ? 's' : 'i'; g_value(&m->a[0]);
    switch(in_pick(0, 7)){
    case 0: osc_bundle_u_addMsg(u, g_build(m)); L[n++] = m; REACH("add"); break;
    case 1: { int j = 0; for(int i = 0; i < n; i++) if(!eqaddr(L[i], m)) L[j++] = L[i]; n = j; L[n++] = m; osc_bundle_u_addMsgWithoutDups(u, g_build(m)); REACH("without dups"); break; }
    case 2: { int j = -1; for(int i = 0; i < n && j < 0; i++) if(eqaddr(L[i], m)) j = i; if(j < 0) L[n++] = m; else L[j] = m; osc_bundle_u_replaceMessage(u, g_build(m)); REACH("replace"); break; }
    case 3: { int j = 0; for(int i = 0; i < n; i++) if(!eqaddr(L[i], m)) L[j++] = L[i]; n = j; osc_bundle_u_removeMessage(u, m->addr); REACH("remove by address"); break; }
    case 4: { if(!n) break; int j = in_pick(0, n - 1); t_osc_msg_u *x = osc_bundle_u_getFirstMsg(u); for(int i = 0; i < j; i++) x = osc_message_u_next(x); osc_bundle_u_removeMsg(u, x); osc_message_u_free(x); for(int i = j; i + 1 < n; i++) L[i] = L[i + 1]; n--; REACH("remove"); break; }
    case 5: osc_bundle_u_clear(u); n = 0; REACH("clear"); break;
    case 6: { t_osc_msg_u *x = g_build(m); osc_bundle_u_addMsgCopy(u, x); L[n++] = m; osc_message_u_setAddress(x, "/zz"); osc_message_u_free(x); REACH("add copy"); break; }
    case 7: { int j = 0; for(int i = 0; i < n; i++) if(!eqaddr(L[i], m)) L[j++] = L[i]; n = j; L[n++] = m; t_osc_msg_u *x = g_build(m); osc_bundle_u_addMsgWithoutDupsCopy(u, x); osc_message_u_free(x); REACH("without dups copy"); break; }
    }
    check_u(u, L, n, 1);
  }
  osc_bundle_u_free(u); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* a message that was never given an address takes part in nothing */
void h_noaddr_u(void){
  long live0 = vh_live(); t_osc_bndl_u *u = osc_bundle_u_alloc(); g_msg a; a.alen = addr(a.addr, 2, 3, 0); a.n = 0; int at = in_pick(0, 1); if(at) osc_bundle_u_addMsg(u, g_build(&a)); t_osc_msg_u *x = osc_message_u_alloc(); osc_message_u_appendInt32(x, (int32_t)in_u32()); osc_bundle_u_addMsg(u, x); if(!at) osc_bundle_u_addMsg(u, g_build(&a));
  char q[8]; int nq = addr(q, 1, 3, 0), full = in_pick(0, 1), hit = nq == a.alen && vh_same(q, a.addr, nq), r = 9; osc_bundle_u_addressExists(u, q, 1, &r); CHECK(r == hit, "exists"); osc_bundle_u_addressIsBound(u, q, 1, &r); CHECK(r == 0, "bound"); t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(u, q, full); if(full) CHECK(osc_message_array_u_getLen(ar) == hit, "matches"); osc_message_array_u_free(ar); CHECK((osc_bundle_u_getFirstFullMatch(u, q) != NULL) == hit, "first full match");
  g_msg b; memcpy(b.addr, q, nq + 1); b.alen = nq; b.n = 0; switch(in_pick(0, 2)){ case 0: osc_bundle_u_replaceMessage(u, g_build(&b)); CHECK(osc_bundle_u_getMsgCount(u) == 3 - hit, "count after replacing"); break; case 1: osc_bundle_u_removeMessage(u, q); CHECK(osc_bundle_u_getMsgCount(u) == 2 - hit, "count after removing"); break; case 2: osc_bundle_u_addMsgWithoutDups(u, g_build(&b)); CHECK(osc_bundle_u_getMsgCount(u) == 3 - hit, "count after adding"); break; }
  int n = 0; for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)) n += m == x; CHECK(n == 1, "the message is still there"); osc_bundle_u_free(u); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* B09: query selection */
#include "osc_query.h"
#ifndef NSEL
#define NSEL 2
#endif
static void bndl_is(t_osc_bndl_s *b, const g_msg *L, int n, const char *what){ int o = 16; CHECK((b != NULL) == (n > 0), what); if(!b) return; for(int i = 0; i < n; i++) o += g_enc_msg(E + o, &L[i]); CHECK(osc_bundle_s_getLen(b) == o && !memcmp(osc_bundle_s_getPtr(b), "#bundle", 8) && vh_same(osc_bundle_s_getPtr(b) + 16, E + 16, o - 16), what); }
static int cut(const g_msg *m, const char *q, int nq){ /* length of the part of the pattern that consumed the whole selector */
  for(int i = 1; i < m->alen; i++) if(m->addr[i] == '/' && ref_match(m->addr, i, q, nq) == 3) return i; return 0; }
void h_query(void){
  long live0 = vh_live(); B.tt = 0; B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++) msg(&B.m[i], MLEN, i ? 1 : 2, 1); int n = g_enc_bndl(REF, &B); char *w = g_heap(REF, n); static char q[2][8]; int nq[2], ns = in_pick(0, NSEL), strip = in_pick(0, 1); char *sel[3] = {0}; int k = 0; for(int i = 0; i < ns; i++){ nq[i] = addr(q[i], 1, QLEN, 1); for(int j = 1; j < nq[i]; j++) q[i][j] = (char)vh_concretize((uint8_t)q[i][j]); if(i && in_pick(0, 1)) k++; sel[k++] = q[i]; } if(ns == 2) ASSUME(!(nq[0] == nq[1] && vh_same(q[0], q[1], nq[0])));
  static g_msg C[2][3], P[2][3], U[3]; int nc[2] = {0}, npt[2] = {0}, nu = 0, order[2], no = 0;
  for(int i = 0; i < B.n; i++){ int any = 0; for(int j = 0; j < ns; j++){ int r = ref_match(B.m[i].addr, B.m[i].alen, q[j], nq[j]); if(!r || r == 2) continue; any = 1; int seen = 0; for(int t = 0; t < no; t++) seen |= order[t] == j; if(!seen) order[no++] = j; if(r == 3) C[j][nc[j]++] = B.m[i]; else { g_msg *d = &P[j][npt[j]++]; *d = B.m[i]; if(strip){ int c = cut(&B.m[i], q[j], nq[j]); CHECK(c > 0, "reference"); if(d->alen - c > 1){ memmove(d->addr, d->addr + c, d->alen - c + 1); d->alen -= c; } } } } if(!any) U[nu++] = B.m[i]; }
  t_osc_rset *rs = NULL; CHECK(osc_query_select(k, sel, n, w, strip, &rs) == OSC_ERR_NONE && rs, "selecting succeeds"); CHECK(vh_same(w, REF, n), "the bundle is unchanged"); memset(w, 0x55, n); free(w);
  for(int j = 0; j < ns; j++){ t_osc_rset_result *r = osc_rset_select(rs, q[j]); CHECK((r != NULL) == (nc[j] + npt[j] > 0), "a result for every selector that matched"); if(r){ CHECK(!strcmp(osc_rset_result_getSelector(r), q[j]) && osc_rset_result_getSelectorLen(r) >= nq[j], "selector"); bndl_is(osc_rset_result_getCompleteMatches(r), C[j], nc[j], "complete matches"); bndl_is(osc_rset_result_getPartialMatches(r), P[j], npt[j], "partial matches"); } }
  if(B.n) bndl_is(osc_rset_getUnmatched(rs), U, nu, "unmatched messages"); else CHECK(osc_rset_getUnmatched(rs) == NULL || osc_bundle_s_getLen(osc_rset_getUnmatched(rs)) <= 16, "an empty bundle has no remainder");
  osc_rset_initIterator(rs); for(int j = 0; j < no; j++){ CHECK(osc_rset_hasNext(rs), "results"); t_osc_rset_result *r = osc_rset_next(rs); CHECK(r && !strcmp(osc_rset_result_getSelector(r), q[order[j]]), "results in order of their first match"); } CHECK(!osc_rset_hasNext(rs) && osc_rset_next(rs) == NULL, "no more results"); CHECK(osc_rset_select(rs, "/zz") == NULL, "no result for another selector");
  osc_rset_free(rs); CHECK(vh_live() == live0, "no heap block is left"); int a = nc[0] + nc[1], b = npt[0] + npt[1]; if(a) REACH("complete"); if(b) REACH("partial"); if(nu) REACH("unmatched");
}
/* R01: every entry is told once what matched it; the callbacks compare while the bundles exist */
#define RN 5
static g_msg RC[RN][RN], RP[RN][RN], RU[RN]; static int rnc[RN], rnp[RN], rnu, rcalls[RN], rmeth[RN], rdel, rno; static char ctxs[16], *rctx[RN]; static int nctx; static long rlen; static char *rbuf, *rname[RN];
static void rcall(int which, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx){
  int j = 0; while(j < RN && !(rname[j] && !strcmp(osc_vtable_entry_getSelector(e), rname[j]))) j++; CHECK(j < RN, "the entry itself"); CHECK(ctx == rctx[j], "the context of the entry"); CHECK(rmeth[j] == which, "the method last bound");
  CHECK(len == rlen && b == rbuf, "the whole bundle"); bndl_is(c, RC[j], rnc[j], "complete matches"); bndl_is(p, RP[j], rnp[j], "partial matches"); rcalls[j]++; rno++;
}
static void rm0(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx){ rcall(0, e, len, b, p, c, ctx); }
static void rm1(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx){ rcall(1, e, len, b, p, c, ctx); }
static t_osc_vtable_method RM[2] = { rm0, rm1 };
static void rdelegate(long len, char *b, t_osc_bndl_s *u, void *ctx){
  CHECK(ctx == &rdel, "the delegation context"); CHECK(len == rlen && b == rbuf, "the whole bundle"); rdel++;
  if(len > 16) bndl_is(u, RU, rnu, "unmatched messages"); else CHECK(u && osc_bundle_s_getLen(u) == 16, "the empty bundle is delegated");
}
static void rreset(void){ memset(rcalls, 0, sizeof rcalls); rdel = rno = 0; }
static void rexpect(int ns, char q[][8], int *nq, int strip){
  rnu = 0; memset(rnc, 0, sizeof rnc); memset(rnp, 0, sizeof rnp);
  for(int i = 0; i < B.n; i++){ int any = 0; for(int j = 0; j < ns; j++){ if(!rname[j]) continue; int r = ref_match(B.m[i].addr, B.m[i].alen, q[j], nq[j]); if(!r || r == 2) continue; any = 1; if(r == 3){ RC[j][rnc[j]++] = B.m[i]; continue; } g_msg *d = &RP[j][rnp[j]++]; *d = B.m[i]; if(strip){ int c = cut(&B.m[i], q[j], nq[j]); CHECK(c > 0, "reference"); if(d->alen - c > 1){ memmove(d->addr, d->addr + c, d->alen - c + 1); d->alen -= c; } } } if(!any) RU[rnu++] = B.m[i]; }
}
void h_dispatch(void){
  long live0 = vh_live(); B.tt = 0; B.n = in_pick(0, NMSG); for(int i = 0; i < B.n; i++) msg(&B.m[i], MLEN, i ? 1 : 2, 1); int n = g_enc_bndl(REF, &B); char *w = g_heap(REF, n); static char q[RN][8]; int nq[RN], ns = in_pick(0, NSEL), strip = in_pick(0, 1), del = in_pick(0, 1);
  for(int i = 0; i < ns; i++){ nq[i] = addr(q[i], 1, QLEN, 1); for(int j = 1; j < nq[i]; j++) q[i][j] = (char)vh_concretize((uint8_t)q[i][j]); } if(ns == 2) ASSUME(!(nq[0] == nq[1] && vh_same(q[0], q[1], nq[0])));
  t_osc_vtable *v = osc_vtable_alloc(del); for(int i = 0; i < ns; i++){ rname[i] = q[i]; rmeth[i] = i & 1; CHECK(osc_vtable_addEntry(v, q[i], RM[i & 1], rctx[i] = ctxs + nctx++) == OSC_ERR_NONE, "register"); } if(del) osc_vtable_setDelegationMethod(v, rdelegate, &rdel);
  rexpect(ns, q, nq, strip); rlen = n; rbuf = w; rreset(); CHECK(osc_dispatch(v, n, w, strip) == OSC_ERR_NONE, "dispatch"); CHECK(rno == (B.n ? ns : 0), "every method is called"); for(int i = 0; i < ns; i++) CHECK(rcalls[i] == (B.n > 0), "exactly once"); CHECK(rdel == (del && (rnu || !B.n)), "the rest is delegated");
  int pick = strip ? in_pick(0, ns) : 1; char *sel[2] = { pick ? q[0] : "/zz", "/zz" }; if(pick && !ns) sel[0] = "/zz"; if(pick == 2){ sel[0] = q[1]; sel[1] = q[0]; } rreset(); CHECK(osc_dispatch_selectors(v, 2, sel, n, w, strip) == OSC_ERR_NONE, "dispatch to some"); for(int i = 0; i < ns; i++) CHECK(rcalls[i] == (B.n && (i ? pick == 2 : pick > 0)), "the named methods and no other"); CHECK(rdel == (del && (rnu || !B.n)), "the rest is delegated");
  CHECK(osc_dispatch(v, n, NULL, strip) == OSC_ERR_NOBUNDLE, "no bundle"); CHECK(vh_same(w, REF, n), "the bundle is unchanged"); osc_vtable_free(v); free(w); CHECK(vh_live() == live0, "no heap block is left");
  int a = 0, b = 0; for(int i = 0; i < ns; i++){ a |= rnc[i]; b |= rnp[i]; } if(a) REACH("complete"); if(b) REACH("partial"); if(rnu) REACH("unmatched");
}
#ifndef NOPS
#define NOPS 3
#endif
void h_vtable(void){
  static char N[RN][8] = { "/a", "/a/b", "/b", "/ab", "/c" }; int nn[RN] = { 2, 4, 2, 3, 2 }, ord[RN], no = 0; long live0 = vh_live(); t_osc_vtable *v = osc_vtable_alloc(in_pick(0, 2));
  for(int k = 0; k < NOPS; k++){ int op = in_pick(0, 3), i = in_pick(0, 3), m = rname[i] ? !rmeth[i] : k & 1; char *s = strdup(N[i]);
    if(op == 0){ CHECK(osc_vtable_addEntry(v, s, RM[m], ctxs + ++nctx) == OSC_ERR_NONE, "register"); rctx[i] = ctxs + nctx; if(!rname[i]) ord[no++] = i; rname[i] = N[i]; rmeth[i] = m; }
    else if(op == 1){ CHECK(osc_vtable_rebindSelector(v, s, RM[m]) == (rname[i] ? OSC_ERR_NONE : OSC_ERR_INVAL), "rebind"); if(rname[i]) rmeth[i] = m; }
    else if(op == 2){ char *c = k & 1 ? NULL : ctxs + ++nctx; CHECK(osc_vtable_rebindSelectorWithContext(v, s, RM[m], c) == (rname[i] ? OSC_ERR_NONE : OSC_ERR_INVAL), "rebind"); if(rname[i]){ rmeth[i] = m; rctx[i] = c; } }
    else if(op == 3){ int to = in_pick(0, 1) ? 4 : (i + 1) % 4; char *d = strdup(N[to]); if(rname[to] || to == i){ free(s); free(d); continue; } CHECK(osc_vtable_renameEntry(v, s, d) == (rname[i] ? OSC_ERR_NONE : OSC_ERR_INVAL), "rename"); free(d);
      if(rname[i]){ for(int j = 0; j < no; j++) if(ord[j] == i) ord[j] = to; rname[to] = N[to]; rmeth[to] = rmeth[i]; rctx[to] = rctx[i]; rname[i] = NULL; if(k & 1){ rmeth[to] = !rmeth[to]; CHECK(osc_vtable_rebindSelector(v, N[to], RM[rmeth[to]]) == OSC_ERR_NONE, "the renamed entry is bound under its new name"); } } }
    free(s);
  }
  CHECK(osc_vtable_getNumEntries(v) == no && osc_vtable_getNumSlots(v) >= no, "one entry for every selector"); CHECK(!osc_vtable_getEntryByIndex(v, -1) && !osc_vtable_getEntryByIndex(v, no), "no other entry");
  for(int j = 0; j < no; j++){ t_osc_vtable_entry *e = osc_vtable_getEntryByIndex(v, j); CHECK(e && !strcmp(osc_vtable_entry_getSelector(e), N[ord[j]]), "entries in order of registration"); CHECK(osc_vtable_getEntryBySelector(v, N[ord[j]]) == e && osc_vtable_getIndexForEntry(v, e) == j && osc_vtable_getIndexForSelector(v, N[ord[j]]) == j, "the entry of a selector"); }
  for(int i = 0; i < RN; i++) if(!rname[i]) CHECK(!osc_vtable_getEntryBySelector(v, N[i]) && osc_vtable_getIndexForSelector(v, N[i]) == -1, "no entry of another selector");
  osc_vtable_setDelegationMethod(v, rdelegate, &rdel); B.tt = 0; B.n = 3; int x = in_pick(0, 3); g_simple(&B.m[0], N[x], 1); g_simple(&B.m[1], x & 1 ? "/a/b/c" : "/ab", 1); g_simple(&B.m[2], x & 2 ? "/*" : "/b/a", 0); int n = g_enc_bndl(REF, &B), strip = x == 1 || x == 2; char *w = g_heap(REF, n);
  rexpect(RN, N, nn, strip); rlen = n; rbuf = w; rreset(); CHECK(osc_dispatch(v, n, w, strip) == OSC_ERR_NONE, "dispatch"); CHECK(rno == no, "every method is called"); for(int i = 0; i < RN; i++) CHECK(rcalls[i] == (rname[i] != NULL), "exactly once"); CHECK(rdel == (rnu > 0), "the rest is delegated");
  rnc[x] = 0; rnp[x] = 0; rreset(); int r = osc_vtable_call(v, N[x], n, w, NULL, NULL); CHECK(r == !rname[x] && rno == (rname[x] != NULL), "calling a selector calls its method");
  osc_vtable_free(v); free(w); CHECK(vh_live() == live0, "no heap block is left"); if(no) REACH("entries"); else REACH("empty");
}
VH_MAIN
