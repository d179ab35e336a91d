#include <sys/time.h>
#include "gen.h"
#include "osc_linkedlist.h"
#include "osc_hashtab.h"
#include "osc_serial.h"
#include "osc_atom_s.r"
#ifndef NOPS
#define NOPS 4
#endif
#ifndef KA
#define KA 1
#endif
#ifndef NMSG
#define NMSG 1
#endif
/* D01: the linked list against an array */
static char CELL[16]; static int killed[16];
static void ll_dtor(void *p){ killed[(char *)p - CELL]++; }
static const int *LL_L; static int LL_n, LL_i;
static void ll_visit(void *ctx, int i, void *d){ if(i < 0){ CHECK(!d, "the end of an iteration carries no element"); return; } CHECK(ctx == (void *)&LL_i, "context"); CHECK(i == LL_i && i < LL_n && d == CELL + LL_L[i], "iteration visits every element in order with its index"); LL_i++; }
static void ll_copy(void **d, void *s){ *d = (char *)s + 8; }
static void ll_same(t_osc_linkedlist *l, const int *L, int n){
  CHECK(osc_linkedlist_getCount(l) == n, "count"); CHECK(osc_linkedlist_peekHead(l) == (n ? CELL + L[0] : NULL), "head"); CHECK(osc_linkedlist_peekTail(l) == (n ? CELL + L[n - 1] : NULL), "tail");
  for(int i = 0; i < n; i++) CHECK(osc_linkedlist_peekNth(l, i) == CELL + L[i], "element"); CHECK(osc_linkedlist_peekNth(l, n) == NULL && osc_linkedlist_peekNth(l, n + 1) == NULL && osc_linkedlist_peekNth(l, -2) == NULL, "no element there");
  LL_L = L; LL_n = n; LL_i = 0; osc_linkedlist_iterate(l, ll_visit, &LL_i); CHECK(LL_i == n, "iteration visits every element"); }
void h_list(void){
  long live0 = vh_live(); int own = in_pick(0, 1); t_osc_linkedlist *l = osc_linkedlist_new(own ? ll_dtor : NULL); int L[8], n = 0, gone[16] = {0}, k = in_pick(0, NOPS);
  for(int s = 0; s < k; s++){
    switch(in_pick(0, 6)){
    case 0: osc_linkedlist_append(l, CELL + s); L[n++] = s; REACH("append"); break;
    case 1: osc_linkedlist_prepend(l, CELL + s); memmove(L + 1, L, n++ * sizeof *L); L[0] = s; REACH("prepend"); break;
    case 2: { void *p = osc_linkedlist_popHead(l); CHECK(p == (n ? CELL + L[0] : NULL), "popped head"); if(n) memmove(L, L + 1, --n * sizeof *L); REACH("pop head"); break; }
    case 3: { void *p = osc_linkedlist_popTail(l); CHECK(p == (n ? CELL + L[n - 1] : NULL), "popped tail"); if(n) n--; REACH("pop tail"); break; }
    case 4: { int i = (int)in_u32(); void *p = osc_linkedlist_popNth(l, i); if(i == -1) i = n - 1; if(n && i >= 0 && i < n){ i = (int)vh_concretize(i); CHECK(p == CELL + L[i], "popped element"); n--; memmove(L + i, L + i + 1, (n - i) * sizeof *L); REACH("pop nth"); } else CHECK(p == NULL, "nothing to pop there"); break; }
    case 5: for(int i = 0; i < n; i++) gone[L[i]] += own; osc_linkedlist_clear(l); n = 0; REACH("clear"); break;
    case 6: { t_osc_linkedlist *c = osc_linkedlist_clone(l, ll_copy); int M[8]; for(int i = 0; i < n; i++){ M[i] = L[i] + 8; gone[M[i]] += own; } ll_same(c, M, n); osc_linkedlist_destroy(c); REACH("clone"); break; }
    }
    ll_same(l, L, n); { int i = (int)in_u32(); void *p = osc_linkedlist_peekNth(l, i); if(i == -1) i = n - 1; CHECK((n && i >= 0 && i < n) || p == NULL, "no element at an index out of range"); }
  }
  osc_linkedlist_append(l, NULL); osc_linkedlist_prepend(l, NULL); ll_same(l, L, n);
  for(int i = 0; i < n; i++) gone[L[i]] += own; osc_linkedlist_destroy(l); for(int i = 0; i < 16; i++) CHECK(killed[i] == gone[i], "each element is destroyed once"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* D02: the hash table against an association list */
static char VAL[16]; static int dead[16]; static char *HK[16];
static void ht_dtor(char *k, void *v){ int i = (char *)v - VAL; CHECK(HK[i] == k, "key and value belong together"); dead[i]++; }
static int seen[16], nseen; static void ht_visit(char *k, void *v, void *ctx){ int i = (char *)v - VAL; CHECK(ctx == (void *)seen && HK[i] == k, "entry"); seen[i]++; nseen++; }
static int skey(char *k, int max){ int n = in_pick(1, max); for(int i = 0; i < n; i++){ k[i] = in_u8(); ASSUME(k[i] != 0); } k[n] = 0; return n; }
void h_hash_keys(void){
  long live0 = vh_live(); char a[4], b[4], q[4]; int na = skey(a, KA), nb = skey(b, 1), nq = skey(q, KA); t_osc_hashtab *h = osc_hashtab_new(in_pick(0, 1) ? 1 : 20, ht_dtor); HK[0] = a; HK[1] = b; osc_hashtab_store(h, na, a, VAL); osc_hashtab_store(h, nb, b, VAL + 1);
  int eb = nq == nb && vh_same(q, b, nq), ea = nq == na && vh_same(q, a, nq); char *r = osc_hashtab_lookup(h, nq, q); CHECK(r == (eb ? VAL + 1 : ea ? VAL : NULL), "lookup of an arbitrary key");
  osc_hashtab_remove(h, nq, q, ht_dtor); CHECK(osc_hashtab_lookup(h, nq, q) == NULL, "nothing under a removed key"); r = osc_hashtab_lookup(h, nb, b); CHECK(r == (eb ? NULL : VAL + 1), "other entries stay");
  osc_hashtab_destroy(h); CHECK(dead[0] == 1 && dead[1] == 1, "each entry is destroyed once"); CHECK(vh_live() == live0, "no heap block is left"); if(ea) REACH("hit"); else REACH("miss");
}
/* many stored keys (so every slot has a chain, with keys that are prefixes of one another in it) and one more operation with an arbitrary key */
void h_hash_many(void){
  long live0 = vh_live(); static char K[80][4]; static char *mk[80]; static char V2[80]; int n = 0; t_osc_hashtab *h = osc_hashtab_new(in_pick(0, 1) ? 1 : 20, NULL);
  for(int c = 0; c < 26; c++){ K[n][0] = 'k'; K[n][1] = 'a' + c; n++; } for(int c = 0; c < 10; c++){ K[n][0] = 'k'; K[n][1] = 'b'; K[n][2] = '0' + c; n++; } for(int c = 0; c < 12; c++){ K[n][0] = 'm' + c; n++; }
  for(int i = 0; i < n; i++) osc_hashtab_store(h, strlen(K[i]), K[i], V2 + i);
  char q[4] = {0}; int nq = in_pick(0, 2); if(nq == 0){ q[0] = in_u8(); ASSUME(q[0] != 0); } else { q[0] = 'k'; q[1] = in_u8(); ASSUME((q[1] >= 'a') & (q[1] <= 'z')); if(nq == 2){ q[2] = in_u8(); ASSUME((q[2] >= '0') & (q[2] <= '9')); } } nq++;
  int at = -1; for(int i = 0; i < n; i++) if((int)strlen(K[i]) == nq && vh_same(K[i], q, nq)) at = i;
  CHECK(osc_hashtab_lookup(h, nq, q) == (at < 0 ? NULL : V2 + at), "lookup among many keys"); osc_hashtab_remove(h, nq, q, NULL); CHECK(osc_hashtab_lookup(h, nq, q) == NULL, "nothing under a removed key");
  for(int i = 0; i < n; i++) CHECK(osc_hashtab_lookup(h, strlen(K[i]), K[i]) == (i == at ? NULL : V2 + i), "the other keys stay");
  osc_hashtab_destroy(h); CHECK(vh_live() == live0, "no heap block is left"); if(at < 0) REACH("miss"); else REACH("hit");
}
void h_hash_ops(void){
  static const char *const KS[] = { "a", "r", "b", "ab" }; long live0 = vh_live(); int size = in_pick(0, 1); t_osc_hashtab *h = osc_hashtab_new(size == 0 ? 1 : 0, ht_dtor); int cur[4] = { -1, -1, -1, -1 }, gone[16] = {0}, k = in_pick(0, NOPS); char kb[8][4];
  for(int s = 0; s < k; s++){
    int j = in_pick(0, 3); strcpy(kb[s], KS[j]); HK[s] = kb[s]; int n = strlen(kb[s]);
    switch(in_pick(0, 3)){
    case 0: if(cur[j] >= 0) gone[cur[j]]++; osc_hashtab_store(h, n, kb[s], VAL + s); cur[j] = s; REACH("store"); break;
    case 1: osc_hashtab_storeSafe(h, n, kb[s], VAL + s); if(cur[j] < 0) cur[j] = s; REACH("store safe"); break;
    case 2: { int d = in_pick(0, 1); osc_hashtab_remove(h, n, kb[s], d ? ht_dtor : NULL); if(cur[j] >= 0) gone[cur[j]] += d; cur[j] = -1; REACH("remove"); break; }
    case 3: osc_hashtab_clear(h); for(int i = 0; i < 4; i++){ if(cur[i] >= 0) gone[cur[i]]++; cur[i] = -1; } REACH("clear"); break;
    }
    int c = 0; for(int i = 0; i < 4; i++){ char *v = osc_hashtab_lookup(h, strlen(KS[i]), (char *)KS[i]); CHECK(v == (cur[i] >= 0 ? VAL + cur[i] : NULL), "the value stored last"); c += cur[i] >= 0; }
    memset(seen, 0, sizeof seen); nseen = 0; osc_hashtab_foreach(h, ht_visit, seen); { CHECK(nseen == c, "iteration visits each entry"); for(int i = 0; i < 4; i++) if(cur[i] >= 0) CHECK(seen[cur[i]] == 1, "iteration visits each entry once"); }
  }
  for(int i = 0; i < 4; i++) if(cur[i] >= 0) gone[cur[i]]++; osc_hashtab_destroy(h); for(int i = 0; i < 16; i++) CHECK(dead[i] == gone[i], "each entry is destroyed once"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* D03: arrays */
void h_array(void){
  long live0 = vh_live(); static const int SZ[] = { 1, 4, 12 }; int sz = SZ[in_pick(0, 2)], n = in_pick(0, 4); t_osc_array *a = osc_array_allocWithSize(n, sz); unsigned char M[128]; for(int i = 0; i < n * sz; i++) M[i] = in_u8(); for(int i = 0; i < n; i++) memcpy(osc_array_get(a, i), M + i * sz, sz);
  CHECK(osc_array_getLen(a) == n, "length"); long ix = (long)in_u64(); char *p = osc_array_get(a, ix); CHECK((p != NULL) == (ix >= 0 && ix < n), "an element for every valid index and only those"); if(p){ ix = (long)vh_concretize(ix); CHECK(vh_same(p, M + ix * sz, sz), "element"); }
  t_osc_array *c = osc_array_copy(a); CHECK(osc_array_getLen(c) == n, "length of a copy"); for(int i = 0; i < n; i++) CHECK(osc_array_get(c, i) != osc_array_get(a, i) && vh_same(osc_array_get(c, i), M + i * sz, sz), "copied element");
  int off = in_pick(0, 2), dn = in_pick(0, 5); t_osc_array *d = NULL; unsigned char D[128]; memset(D, 0, sizeof D); if(dn){ dn--; d = osc_array_allocWithSize(dn, sz); for(int i = 0; i < dn * sz; i++) D[i] = in_u8(); for(int i = 0; i < dn; i++) memcpy(osc_array_get(d, i), D + i * sz, sz); }
  CHECK(osc_array_copyInto(&d, a, off) == OSC_ERR_NONE, "copying into an array succeeds"); int want = dn > n + off ? dn : n + off; CHECK(osc_array_getLen(d) == want, "length after copying into an array"); for(int i = 0; i < want; i++){ if(i >= off && i < off + n) CHECK(vh_same(osc_array_get(d, i), M + (i - off) * sz, sz), "copied element"); else if(i < dn) CHECK(vh_same(osc_array_get(d, i), D + i * sz, sz), "element outside the copied range"); }
  int rn = in_pick(0, 6); CHECK(osc_array_resize(c, rn) == OSC_ERR_NONE && osc_array_getLen(c) == rn, "resizing"); for(int i = 0; i < rn && i < n; i++) CHECK(vh_same(osc_array_get(c, i), M + i * sz, sz), "elements that remain"); CHECK(osc_array_get(c, rn) == NULL, "nothing beyond the end");
  if(rn){ memset(osc_array_get(c, 0), 7, sz); osc_array_clear(c); for(int i = 0; i < rn * sz; i++) CHECK(((char *)osc_array_get(c, 0))[i] == 0, "cleared element"); } for(int i = 0; i < n; i++) CHECK(vh_same(osc_array_get(a, i), M + i * sz, sz), "the source is unchanged");
  osc_array_free(a); osc_array_free(c); osc_array_free(d); CHECK(osc_array_get(NULL, 0) == NULL && osc_array_getLen(NULL) == 0, "no array"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
static g_arg A[4], A2[4];
static void fill(t_osc_atom_ar_u *ar, g_arg *a, int n, const char *types){ for(int i = 0; i < n; i++){ g_arg_any(&a[i], types); g_set(osc_atom_array_u_get(ar, i), &a[i]); } }
/* long arrays: more bytes than fit in 16 bits */
void h_array_long(void){
  static const int L[] = { 4000, 9000 }; int n = L[in_pick(0, 1)], i = in_pick(0, 2) * (n - 1) / 2, off = in_pick(0, 1) * 7; uint64_t v = in_u64();
  t_osc_array *a = osc_array_allocWithSize(n, 8); osc_array_clear(a); *(uint64_t *)osc_array_get(a, i) = v;
  t_osc_array *c = osc_array_copy(a), *d = NULL; CHECK(osc_array_copyInto(&d, a, off) == OSC_ERR_NONE && osc_array_resize(a, n + 5) == OSC_ERR_NONE, "copied and resized");
  CHECK(osc_array_getLen(a) == n + 5 && osc_array_getLen(c) == n && osc_array_getLen(d) == n + off, "lengths");
  for(int j = i ? i - 1 : 0; j <= i + 1 && j < n; j++){ uint64_t e = j == i ? v : 0; CHECK(*(uint64_t *)osc_array_get(a, j) == e && *(uint64_t *)osc_array_get(c, j) == e && *(uint64_t *)osc_array_get(d, j + off) == e, "elements"); }
  CHECK(*(uint64_t *)osc_array_get(c, n - 1) == (i == n - 1 ? v : 0) && *(uint64_t *)osc_array_get(d, off + n - 1) == (i == n - 1 ? v : 0), "last element");
  osc_array_free(a); osc_array_free(c); osc_array_free(d); REACH("done");
}
void h_atoms(void){
  long live0 = vh_live(); int n = in_pick(0, 3); t_osc_atom_ar_u *a = osc_atom_array_u_alloc(n); osc_atom_array_u_clear(a); fill(a, A, n, "isbd"); CHECK(osc_atom_array_u_getLen(a) == n, "length");
  t_osc_atom_ar_u *c = osc_atom_array_u_copy(a); CHECK(osc_atom_array_u_getLen(c) == n, "length of a copy"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(c, i), &A[i]), "copied atom");
  int off = in_pick(0, 1), dn = in_pick(0, 3); t_osc_atom_ar_u *d = NULL; if(dn){ dn--; d = osc_atom_array_u_alloc(dn); osc_atom_array_u_clear(d); fill(d, A2, dn, "is"); }
  CHECK(osc_atom_array_u_copyInto(&d, a, off) == OSC_ERR_NONE, "copying into an array succeeds"); int want = dn > n + off ? dn : n + off; CHECK(osc_atom_array_u_getLen(d) == want, "length after copying into an array"); osc_atom_array_u_free(a);
  for(int i = 0; i < want; i++){ if(i >= off && i < off + n) CHECK(g_eq_u(osc_atom_array_u_get(d, i), &A[i - off]), "copied atom"); else if(i < dn) CHECK(g_eq_u(osc_atom_array_u_get(d, i), &A2[i]), "atom outside the copied range"); } for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(c, i), &A[i]), "a copy does not depend on its source");
  CHECK(osc_atom_array_u_get(c, n) == NULL && osc_atom_array_u_get(c, -1) == NULL, "nothing outside the array"); osc_atom_array_u_free(c); osc_atom_array_u_free(d); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* arrays of values: every getter over both kinds of atom array agrees with the getter of the element */
#define ARR(T, N) { T *o = NULL, own[3]; int use = in_pick(0, 1); if(use) o = own; T *w; CHECK(osc_atom_array_u_get##N##Array(u, &o) == OSC_ERR_NONE, "succeeds"); w = o; for(int i = 0; i < n; i++){ T x = osc_atom_u_get##N(osc_atom_array_u_get(u, i)); CHECK(!memcmp(&x, w + i, sizeof x), "value of the element"); } if(!use) free(o); else CHECK(o == own, "uses the caller's array"); \
  o = use ? own : NULL; CHECK(osc_atom_array_s_get##N##Array(s, &o) == OSC_ERR_NONE, "succeeds"); for(int i = 0; i < n; i++){ T x = osc_atom_s_get##N(osc_atom_array_s_get(s, i)); CHECK(!memcmp(&x, o + i, sizeof x), "value of the element"); } if(!use) free(o); REACH(#N); break; }
void h_values(void){
  g_msg m; strcpy(m.addr, "/a"); m.alen = 2; m.n = in_pick(1, 2); for(int i = 0; i < m.n; i++) g_arg_any(&m.a[i], "ihcHTNfd"); int n = m.n; unsigned char e[64]; g_enc_msg(e, &m);
  t_osc_atom_ar_u *u = osc_atom_array_u_alloc(n); osc_atom_array_u_clear(u); for(int i = 0; i < n; i++) g_set(osc_atom_array_u_get(u, i), &m.a[i]);
  t_osc_msg_s *ms = osc_message_s_alloc(); osc_message_s_wrap(ms, (char *)e); t_osc_atom_ar_s *s = osc_atom_array_s_alloc(n); osc_atom_array_s_clear(s); for(int i = 0; i < n; i++){ t_osc_atom_s *x = NULL; osc_message_s_getArg(ms, i, &x); memcpy(osc_atom_array_s_get(s, i), x, sizeof(t_osc_atom_s)); osc_atom_s_free(x); }
  /* floating-point values inside the range of the target type */
  static const double LO[] = { -2147483000., -9.2e18, -0.5, -0.5, -1e9, -1e9, -1e9 }, HI[] = { 2147483000., 9.2e18, 4294967000., 1.8e19, 1e9, 1e9, 1e9 }; int k = in_pick(0, 6);
  for(int i = 0; i < n; i++){ if(m.a[i].tt == 'f'){ float f = u2f((uint32_t)m.a[i].bits); ASSUME((f > (float)LO[k]) & (f < (float)HI[k])); } if(m.a[i].tt == 'd'){ double f = u2d(m.a[i].bits); ASSUME((f > LO[k]) & (f < HI[k])); } }
  switch(k){ case 5: ARR(float, Float) case 6: ARR(double, Double) case 0: ARR(int32_t, Int32) case 1: ARR(int64_t, Int64) case 2: ARR(uint32_t, UInt32) case 3: ARR(uint64_t, UInt64) case 4: { char *o = NULL; osc_atom_array_u_getBoolArray(u, &o); for(int i = 0; i < n; i++) CHECK(o[i] == (char)osc_atom_u_getBool(osc_atom_array_u_get(u, i)), "value of the element"); free(o); o = NULL; osc_atom_array_s_getBoolArray(s, &o); for(int i = 0; i < n; i++) CHECK(o[i] == (char)osc_atom_s_getBool(osc_atom_array_s_get(s, i)), "value of the element"); free(o); REACH("Bool"); break; } }
  osc_atom_array_u_free(u); osc_array_free(s); osc_message_s_free(ms); REACH("done");
}
void h_strings(void){
  long live0 = vh_live(); int n = in_pick(0, 3); t_osc_atom_ar_u *u = osc_atom_array_u_alloc(n); osc_atom_array_u_clear(u); char R[64]; int o = 0; static const char *const SEP[] = { NULL, "", " ", ", " }; const char *sep = SEP[in_pick(0, 3)];
  for(int i = 0; i < n; i++){ A[i].tt = 's'; A[i].len = g_str(A[i].b, 3); g_set(osc_atom_array_u_get(u, i), &A[i]); memcpy(R + o, A[i].b, A[i].len); o += A[i].len; if(sep){ strcpy(R + o, sep); o += strlen(sep); } } R[o++] = 0;
  int cap = in_pick(0, 3); static const int CAP[] = { 0, 1, 4, 7 }; char *out = cap ? malloc(CAP[cap]) : NULL; long len = CAP[cap]; CHECK(osc_atom_array_u_getStringArray(u, &len, &out, sep) == OSC_ERR_NONE, "succeeds"); CHECK(len == o, "length"); CHECK(vh_same(out, R, o), "joined strings"); free(out); osc_atom_array_u_free(u); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* D04 */
static const char ORD[] = "NTFcCuUiIhHfds"; static int rank(char c){ int r = 0; for(int i = 1; i < 14; i++) r |= (c == ORD[i]) * i; return r; }
void h_typetags(void){
  char a = (char)in_u8(), b = (char)in_u8(); int r = osc_typetag_compare(a, b); CHECK(r >= -1 && r <= 1, "result of a comparison"); CHECK((r == 0) == (a == b), "equal only to itself"); int ra = rank(a), rb = rank(b); if(ra != rb) CHECK(r == (ra < rb ? -1 : 1), "the wider type is larger"); if(ra | rb) CHECK(osc_typetag_compare(b, a) == -r || a == b, "antisymmetric");
  int8_t t = (int8_t)vh_concretize(in_u8()); char *s = osc_typetag_str(t); CHECK(s != NULL && strlen(s) > 0, "every type has a name"); int unk = strncmp(s, "unknown", 7) == 0; int known = t == '.'; for(int i = 0; i < 14; i++) known |= t == ORD[i]; CHECK(unk == !known, "names of the known types"); REACH("done");
}
void h_largest(void){
  int n = in_pick(0, 2), m[2], best = 0; t_osc_atom_ar_u *v[2]; static const char TY[] = "NTFcCuUiIhHfds"; 
  for(int i = 0; i < n; i++){ m[i] = in_pick(0, 2); v[i] = osc_atom_array_u_alloc(m[i]); osc_atom_array_u_clear(v[i]); for(int j = 0; j < m[i]; j++){ int k = in_pick(0, 13); A[0].tt = TY[k]; A[0].bits = 0; A[0].len = 0; A[0].b[0] = 0; g_set(osc_atom_array_u_get(v[i], j), &A[0]); if(k == 2) k = 1; if(k > best) best = k; } }
  CHECK(osc_typetag_getLargestType(n, v) == TY[best], "the widest type"); for(int i = 0; i < n; i++) osc_atom_array_u_free(v[i]); REACH("done");
}
/* T01 */
void h_tt_arith(void){
  uint64_t a = in_u64(), b = in_u64(), c = in_u64(); t_osc_timetag x = g_tt(a), y = g_tt(b); CHECK(g_ttbits(osc_timetag_add(x, y)) == a + b, "sum"); CHECK(g_ttbits(osc_timetag_subtract(x, y)) == (a >= b ? a - b : b - a), "difference"); int r = osc_timetag_compare(x, y); CHECK(r == (a < b ? -1 : a > b ? 1 : 0), "order");
  CHECK(!!osc_timetag_isImmediate(x) == (a == 1), "immediate"); CHECK(osc_timetag_ntp_getSeconds(x) == (uint32_t)(a >> 32) && osc_timetag_ntp_getFraction(x) == (uint32_t)a, "parts"); CHECK(osc_timetag_compare(osc_timetag_subtract(osc_timetag_add(x, y), y), x) == 0 || a + b < a, "subtraction undoes addition"); (void)c; REACH("done");
}
void h_tt_float(void){
  uint32_t s = in_u32(), f = in_u32(); t_osc_timetag t = g_tt((uint64_t)s << 32); t_osc_timetag r = osc_timetag_floatToTimetag(osc_timetag_timetagToFloat(t)); CHECK(g_ttbits(r) == (uint64_t)s << 32, "whole seconds survive conversion to a floating-point number"); (void)f; REACH("done");
}
/* seconds as a floating-point number, and back */
void h_tt_frac(void){
  static const uint32_t SS[] = { 0, 1, 2, 59, 0x7fffffffu, 0x80000000u, 3913056000u, 0xfffffffeu }, FF[] = { 0, 1, 2, 0x100000, 0x40000000, 0x7fffffff, 0x80000000u, 0xa0000000u, 0xfff00000u, 0xffff0000u }; uint32_t s = SS[in_pick(0, 7)], f = FF[in_pick(0, 9)]; t_osc_timetag t = g_tt((uint64_t)s << 32 | f);
  double want = (double)s + (double)f / 4294967296., d = osc_timetag_timetagToFloat(t); CHECK(d - want < 1e-6 && want - d < 1e-6, "seconds and fraction as a number");
  int64_t back = (int64_t)(g_ttbits(osc_timetag_floatToTimetag(d)) - ((uint64_t)s << 32 | f)); CHECK(back > -8192 && back < 8192, "and back to the precision of a double"); REACH("done");
}
/* the clock of the system is an input */
static long now_s, now_us; int gettimeofday(struct timeval *tv, void *tz){ if(tv){ tv->tv_sec = now_s; tv->tv_usec = now_us; } if(tz) memset(tz, 0, 8); return 0; }
void h_now(void){
  /* the microseconds are chosen at both ends of a second and all over it */
  int k = in_pick(0, 255); uint32_t us = k < 32 ? k : k < 64 ? 999999 - (k - 32) : (uint32_t)k * 3907; now_us = us; now_s = (long)in_u32(); ASSUME(now_s < 2085978496L);
  uint64_t t = g_ttbits(osc_timetag_now()), sec = (uint64_t)(now_s + 2208988800L), want = sec << 32 | ((uint64_t)us << 32) / 1000000;
  CHECK((uint32_t)(t >> 32) == (uint32_t)sec, "the current second"); CHECK((int64_t)(t - want) >= -4400 && (int64_t)(t - want) <= 4400, "the current time, to a microsecond"); REACH("done");
}
/* T02 */
void h_tt_header(void){
  uint64_t a = in_u64(); char w[16], h[16]; memset(h, 7, 16); wr64(w, a); osc_timetag_encodeForHeader(g_tt(a), h + 4); CHECK(vh_same(h + 4, w, 8) && h[3] == 7 && h[12] == 7, "eight bytes, big-endian"); CHECK(g_ttbits(osc_timetag_decodeFromHeader(w)) == a, "decoding"); osc_timetag_encodeForHeader(g_tt(a), NULL); CHECK(g_ttbits(osc_timetag_decodeFromHeader(NULL)) == 0, "no header");
  unsigned char b[32]; int n = g_enc_header(b, a); CHECK(g_ttbits(osc_bundle_s_getTimetag(n, (char *)b)) == a, "timetag of a bundle"); uint64_t c = in_u64(); osc_bundle_s_setTimetag(n, (char *)b, g_tt(c)); unsigned char e[32]; g_enc_header(e, c); CHECK(vh_same(b, e, 16), "bundle with another timetag"); REACH("done");
}
/* T03: ISO 8601; the reference calendar is the proleptic Gregorian one */
static int leap(int y){ return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long days_before(int y){ long d = 0; for(int i = 1900; i < y; i++) d += 365 + leap(i); return d; }
static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
void h_iso(void){
#ifdef YEARS
  int y = 1900 + in_pick(0, 136);
#else
  static const int Y[] = { 1900, 1901, 1904, 1970, 1999, 2000, 2001, 2004, 2026, 2036 }; int y = Y[in_pick(0, 9)];
#endif
  int mon = in_pick(0, 11), dl = ML[mon] + (mon == 1 && leap(y)), d = in_pick(0, 3); int day = d == 0 ? 1 : d == 1 ? 2 : d == 2 ? 28 : dl; if(d == 3) ASSUME(dl > 28 || 1); int tod = in_pick(0, 3); static const int H[] = { 0, 9, 12, 23 }, M[] = { 0, 59, 30, 59 }, S[] = { 0, 5, 30, 59 };
  long days = days_before(y) + day - 1; for(int i = 0; i < mon; i++) days += ML[i] + (i == 1 && leap(y)); uint64_t sec = (uint64_t)days * 86400 + H[tod] * 3600 + M[tod] * 60 + S[tod]; if(sec > 0xffffffffu) return;
  static const uint32_t FR[] = { 0, 0x80000000u, 0x40000000u }; static const char *const FS[] = { "000000", "500000", "250000" }; int fr = in_pick(0, 2); t_osc_timetag t = g_tt(sec << 32 | FR[fr]);
  char want[64]; sprintf(want, "%04d-%02d-%02dT%02d:%02d:%02d.%sZ", y, mon + 1, day, H[tod], M[tod], S[tod], FS[fr]); long sz = osc_timetag_nformat(NULL, 0, t); char *got = osc_timetag_format(t); CHECK(sz >= (long)strlen(want), "announced size"); CHECK(!strcmp(got, want), "date and time in UTC"); free(got);
  t_osc_timetag p; memset(&p, 0, sizeof p); osc_timetag_fromISO8601(want, &p); CHECK(p.sec == (uint32_t)sec, "parsing gives the same second"); int64_t df = (int64_t)p.frac_sec - (int64_t)FR[fr]; CHECK(df >= -4 && df <= 4, "parsing gives the same fraction"); REACH("done");
}
/* symbolic seconds within one minute, bounded buffers */
void h_iso_sec(void){
  static const uint32_t B[] = { 0u, 3913056000u, 4294967220u }; int s = in_range(0, 59); uint32_t base = B[in_pick(0, 2)]; t_osc_timetag t = g_tt((uint64_t)(base + s) << 32); int n = in_pick(0, 32); char *b = malloc(n ? n : 1); memset(b, 1, n ? n : 1); osc_timetag_nformat(b, n, t); int k = 0; while(k < n && b[k]) k++; CHECK(n == 0 || k < n, "terminated inside the buffer"); CHECK(n < 28 || k == 27, "complete when there is room"); if(n >= 20) CHECK((b[17] - '0') * 10 + b[18] - '0' == (int)((base % 60) + s) % 60, "seconds"); free(b); REACH("done");
}
/* S01: the incremental checker */
uint32_t osc_serial_counter(uint64_t s);
static uint64_t feed(const unsigned char *b, int n, int *at){ uint64_t s = OSC_SERIAL_INIT; for(int i = 0; i < n; i++){ s = osc_serial_processByte((char)b[i], s); if(osc_serial_errorp(s)){ *at = i; return s; } } *at = -1; return s; }
static g_bndl SB;
static void s_msg(g_msg *m, int narg){ m->alen = in_pick(2, 5); m->addr[0] = '/'; for(int i = 1; i < m->alen; i++){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127) & (c != '[') & (c != ']') & (c != '{') & (c != '}')); m->addr[i] = c; } m->addr[m->alen] = 0; m->n = in_pick(0, narg); for(int i = 0; i < m->n; i++) g_arg_any(&m->a[i], i ? "iT" : g_types_all); }
void h_serial_ok(void){
  unsigned char b[512]; SB.tt = in_u64(); SB.n = in_pick(0, NMSG + 1); for(int i = 0; i < SB.n; i++) s_msg(&SB.m[i], i ? 1 : 2); int n = g_enc_bndl(b, &SB), at; feed(b, n, &at); CHECK(at < 0, "every byte of a well-formed bundle is accepted"); REACH("bundle");
  if(SB.n){ int k = g_enc_msg(b, &SB.m[0]); feed(b + 4, k - 4, &at); CHECK(at < 0, "every byte of a well-formed message is accepted"); REACH("message"); }
}
void h_serial_big(void){ /* one message of any multiple of 4 from 12 to 1028 bytes, followed by another */
  int k = in_pick(0, 6); static const int SZ[] = { 12, 124, 128, 132, 256, 512, 1028 }; int z = SZ[k]; unsigned char *b = malloc(64 + z); int o = g_enc_header(b, 1); wr32(b + o, z); memset(b + o + 4, 0, z); b[o + 4] = '/'; for(int i = 1; i < z - 8 - 1; i++) b[o + 4 + i] = 'a'; memcpy(b + o + 4 + z - 8, ",i\0", 4); wr32(b + o + 4 + z - 4, in_u32()); o += 4 + z; g_msg m; g_simple(&m, "/b", 1); o += g_enc_msg(b + o, &m); int at; feed(b, o, &at); CHECK(at < 0, "every byte of a well-formed bundle is accepted");
  b[16 + 4 + z + 4] = 'x'; feed(b, o, &at); CHECK(at == 16 + 4 + z + 4, "an address without a leading slash is reported where it is"); free(b); REACH("done");
}
void h_serial_bad(void){
  unsigned char b[128]; g_msg m; g_simple(&m, "/ab", 1); int at, n = g_enc_header(b, in_u64()); n += g_enc_msg(b + n, &m); uint64_t s;
  switch(in_pick(0, 6)){
  case 0: { int i = in_pick(1, 7); uint8_t c = in_u8(); ASSUME(c != b[i]); b[i] = c; s = feed(b, n, &at); if(i < 7){ CHECK(at == i, "a wrong byte of the identifier is reported where it is"); CHECK(s & OSC_SERIAL_ERROR_MASK, "error"); CHECK(osc_serial_errstr(s) != NULL, "error text"); } REACH("header"); break; }
  case 1: { uint8_t c = in_u8(); ASSUME(c != '#' && c != '/'); b[0] = c; s = feed(b, n, &at); CHECK(at == 0, "neither a bundle nor a message"); REACH("first"); break; }
  case 2: { uint8_t c = in_u8(); ASSUME(c != '/'); b[20] = c; s = feed(b, n, &at); CHECK(at == 20, "an address without a leading slash is reported where it is"); REACH("slash"); break; }
  case 3: { uint8_t c = in_u8(); ASSUME(c != ','); b[24] = c; s = feed(b, n, &at); CHECK(at == 24, "missing typetags are reported where they are"); REACH("typetags"); break; }
  case 4: { uint8_t c = in_u8(); int ok = c == 0; for(const char *t = "cCuUiIhHfdsbtTFN."; *t; t++) ok |= c == *t; ASSUME(!ok); b[25] = c; s = feed(b, n, &at); CHECK(at == 25, "an unknown typetag is reported where it is"); REACH("typetag"); break; }
  case 5: { b[16] |= 0x80; s = feed(b, n, &at); CHECK(at >= 16 && at <= 20, "a negative size is reported"); REACH("size"); break; }
  case 6: { static const char *const AD[] = { "/[[", "/[{", "/{{", "/{,,", "/[--", "/[*", "/{?", "/]", "/}" }; int k = in_pick(0, 8); g_simple(&m, AD[k], 0); n = 16 + g_enc_msg(b + 16, &m); s = feed(b, n, &at); CHECK(at == 20 + (int)strlen(AD[k]) - 1, "malformed brackets are reported where they are"); REACH("brackets"); break; }
  }
  uint64_t e = in_u64(); char *t = osc_serial_errstr(e); unsigned c = (e >> 32) & 0xff; CHECK((t != NULL) == (c < 16), "error texts"); uint64_t r = osc_serial_processByte((char)in_u8(), e); (void)r; REACH("done");
}
/* the same in a message outside of a bundle */
void h_serial_naked(void){
  static unsigned char b[128]; g_msg m; int at, n; uint64_t s; g_simple(&m, "/ab", 1);
  switch(in_pick(0, 3)){
  case 0: { n = g_enc_msg(b, &m); uint8_t c = in_u8(); ASSUME(c != ','); b[8] = c; s = feed(b + 4, n - 4, &at); CHECK(at == 4, "missing typetags are reported where they are"); REACH("typetags"); break; }
  case 1: { n = g_enc_msg(b, &m); uint8_t c = in_u8(); int ok = c == 0; for(const char *t = "cCuUiIhHfdsbtTFN."; *t; t++) ok |= c == *t; ASSUME(!ok); b[9] = c; s = feed(b + 4, n - 4, &at); CHECK(at == 5, "an unknown typetag is reported where it is"); REACH("typetag"); break; }
  case 2: { static const char *const AD[] = { "/[[", "/[{", "/{{", "/{,,", "/[--", "/[*", "/{?", "/]", "/}", "/{a]", "/{[", "/[}", "/[?", "/{*", "/{a,,", "/[a--" }; int k = in_pick(0, 15); g_simple(&m, AD[k], 0); n = g_enc_msg(b, &m); s = feed(b + 4, n - 4, &at); CHECK(at == (int)strlen(AD[k]) - 1, "malformed brackets are reported where they are"); n = 16 + g_enc_msg(b + 16, &m); g_enc_header(b, 0); s = feed(b, n, &at); CHECK(at == 20 + (int)strlen(AD[k]) - 1, "malformed brackets are reported where they are"); REACH("brackets"); break; }
  case 3: { static const char *const AD[] = { "/{", "/[", "/{a,", "/[a-", "/{a", "/[a", "/a{b,c", "/a[0-" }; int k = in_pick(0, 7); g_simple(&m, AD[k], 0); n = g_enc_msg(b, &m); s = feed(b + 4, n - 4, &at); CHECK(at == (int)strlen(AD[k]), "an open bracket is reported at the end of the address"); n = 16 + g_enc_msg(b + 16, &m); g_enc_header(b, 0); s = feed(b, n, &at); CHECK(at == 20 + (int)strlen(AD[k]), "an open bracket is reported at the end of the address"); REACH("open"); break; }
  }
  CHECK(osc_serial_errorp(s) && osc_serial_errstr(s) && *osc_serial_errstr(s), "an error has a text");
}
/* every type character, any padding, every size */
void h_serial_tags(void){
  static unsigned char b[128]; int in = in_pick(0, 1), la = in_pick(2, 6), nt = in_pick(0, 6), o = 0, at, bad = in_pick(0, 2); if(in){ g_enc_header(b, 0); o = 20; } int st = o; memcpy(b + o, "/aaaaa", la); o += pad4(la + 1); b[o] = ','; for(int i = 1; i <= nt; i++){ uint8_t c = in_u8(); int ok = 0; for(const char *t = "cCuUiIhHfdsbtTFN."; *t; t++) ok |= c == *t; ASSUME(ok); b[o + i] = c; } int ty = o; o += pad4(nt + 2); int data = o; for(int i = 0; i < 8; i++) b[o++] = in_u8(); if(in) wr32(b + 16, o - st);
  if(!bad){ feed(b, o, &at); CHECK(at < 0, "every byte of a well-formed message is accepted"); REACH("good"); return; }
  int p = bad == 1 ? st + la + 1 : ty + nt + 2, e = bad == 1 ? ty : data; ASSUME(p < e); int x = in_range(p, p + 1); ASSUME(x < e); uint8_t c = in_u8(); ASSUME(c != 0); b[x] = c; uint64_t s = feed(b, o, &at); CHECK(at == x, "a wrong byte of the padding is reported where it is"); CHECK(osc_serial_errstr(s) && *osc_serial_errstr(s), "an error has a text"); REACH("padding");
}
void h_serial_size(void){
  static unsigned char b[64]; int at; uint32_t z = in_u32(); g_enc_header(b, in_u64()); wr32(b + 16, z); b[20] = '/'; uint64_t s = feed(b, 20, &at); if(z & 0x80000000u){ CHECK(at >= 16, "a negative size is reported"); REACH("negative"); return; } CHECK(at < 0 && osc_serial_counter(s) == z, "the size is counted"); if(z){ s = feed(b, 21, &at); CHECK(at < 0 && osc_serial_counter(s) == z - 1, "the size is counted"); } REACH("size");
}
/* the names of the parts of a state */
char *osc_serial_macroStr(uint64_t s); char *osc_serial_stateStr(uint64_t s); char *osc_serial_microStr(uint64_t s); uint32_t osc_serial_counter(uint64_t s);
void h_serial_str(void){
  uint64_t s = in_u64(); CHECK(osc_serial_counter(s) == (uint32_t)s, "counter"); char *a = osc_serial_macroStr(s), *b = osc_serial_stateStr(s), *c = osc_serial_microStr(s); CHECK(a && b && c, "a text for every state"); CHECK(strlen(a) < 40 && strlen(b) < 40 && strlen(c) < 40, "a text for every state");
  uint64_t M = s & 0xff00000000000000ull, S = s & 0xff000000000000ull; if(M == OSC_SERIAL_MESSAGE) CHECK(!strcmp(a, "naked message"), "text"); if(M == OSC_SERIAL_BUNDLE_HEADER && S == OSC_SERIAL_BUNDLE_HEADER_TIMETAG) CHECK(!strcmp(a, "bundle header") && !strcmp(b, "timetag"), "text"); if(M == OSC_SERIAL_BUNDLE_MESSAGE && S == OSC_SERIAL_MESSAGE_DATA) CHECK(!strcmp(a, "bundle message") && !strcmp(b, "data"), "text"); if(M == OSC_SERIAL_MESSAGE && S == OSC_SERIAL_MESSAGE_ADDRESS && (s & 0xff0000000000ull) == OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) CHECK(!strcmp(b, "address") && !strcmp(c, "null padding"), "text"); REACH("done");
}
void h_serial_pattern(void){ /* legal patterns in addresses */
  static const char *const AD[] = { "/{a,b,c}", "/[a-c]", "/[a-cx-z]", "/{a,b}[cd]", "/*?/[0-9]{x,y,z}" }; unsigned char b[128]; g_msg m; g_simple(&m, AD[in_pick(0, 4)], 1); int n = g_enc_header(b, 0), at; n += g_enc_msg(b + n, &m); feed(b, n, &at); CHECK(at < 0, "patterns are accepted in a bundle"); feed(b + 20, n - 20, &at); CHECK(at < 0, "patterns are accepted in a message"); REACH("done");
}
VH_MAIN
