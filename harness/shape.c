#include "gen.h"
#ifndef ALEN
#define ALEN 6
#endif
#ifndef NMSG
#define NMSG 2
#endif
/* B08: trees of messages and bundles */
struct tb; typedef struct { char addr[24]; int n; struct { struct tb *b; uint32_t v; } a[2]; } tm_t; typedef struct tb { int n; tm_t m[3]; } tb_t;
static tb_t POOL[12]; static int npool;
static int enc_b(unsigned char *p, const tb_t *b);
static int enc_m(unsigned char *p, const tm_t *m){ int al = strlen(m->addr), n = pad4(al + 1), o = 4; memset(p + o, 0, n); memcpy(p + o, m->addr, al); o += n; n = pad4(m->n + 2); memset(p + o, 0, n); p[o] = ','; for(int i = 0; i < m->n; i++) p[o + 1 + i] = m->a[i].b ? '.' : 'i'; o += n; for(int i = 0; i < m->n; i++){ if(m->a[i].b){ n = enc_b(p + o + 4, m->a[i].b); wr32(p + o, n); o += 4 + n; } else { wr32(p + o, m->a[i].v); o += 4; } } wr32(p, o - 4); return o; }
static int enc_b(unsigned char *p, const tb_t *b){ int o = g_enc_header(p, 0); for(int i = 0; i < b->n; i++) o += enc_m(p + o, &b->m[i]); return o; }
static t_osc_bndl_u *mk_b(const tb_t *b){ t_osc_bndl_u *u = osc_bundle_u_alloc(); for(int i = 0; i < b->n; i++){ t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, b->m[i].addr); for(int j = 0; j < b->m[i].n; j++) if(b->m[i].a[j].b) osc_message_u_appendBndl_u(m, mk_b(b->m[i].a[j].b)); else osc_message_u_appendInt32(m, (int32_t)b->m[i].a[j].v); osc_bundle_u_addMsg(u, m); } return u; }
static int ser(t_osc_bndl_u *u, unsigned char *p, int max){ t_osc_bndl_s *s = osc_bundle_u_serialize(u); int n = osc_bundle_s_getLen(s); ASSUME(n <= max); memcpy(p, osc_bundle_s_getPtr(s), n); osc_bundle_s_deepFree(s); return n; }
static unsigned char REF[1024], OUT[1024], TMP[512];
/* the bundle holds exactly the listed messages, in any order; addresses are distinct */
static void holds(t_osc_bndl_u *u, const tm_t *L, int n){
  CHECK(osc_bundle_u_getMsgCount(u) == n, "number of messages"); int k = 0; for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)) k++; CHECK(k == n, "number of messages in the list");
  for(int i = 0; i < n; i++){ t_osc_msg_u *f = NULL; for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)) if(!strcmp(osc_message_u_getAddress(m), L[i].addr)) f = m; CHECK(f != NULL, "every message is there under its full address"); int z = enc_m(TMP, &L[i]); CHECK(osc_message_u_getSerializedSize(f) == z, "size of a message"); osc_message_u_nserialize((char *)OUT, sizeof OUT, f); CHECK(vh_same(OUT, TMP, z), "arguments of a message"); }
}
static tm_t L[16]; static int nL;
static void add(const tm_t *m){ for(int i = 0; i < nL; i++) if(!strcmp(L[i].addr, m->addr)){ L[i] = L[--nL]; break; } L[nL++] = *m; }
static void flat(const tb_t *b, const char *pfx, const char *sep, int max, int lev, int rm){
  for(int i = 0; i < b->n; i++){ tm_t o; o.n = 0; o.addr[0] = 0; if(pfx){ strcpy(o.addr, pfx); strcat(o.addr, sep); } strcat(o.addr, b->m[i].addr); for(int j = 0; j < b->m[i].n; j++) if(b->m[i].a[j].b && (lev < max || max <= 0)) flat(b->m[i].a[j].b, o.addr, sep, max, lev + 1, rm); else o.a[o.n++] = b->m[i].a[j]; if(o.n || !rm) add(&o); }
}
static tb_t *sub2(void){ tb_t *b = &POOL[npool++]; b->n = in_pick(0, 1); if(b->n){ strcpy(b->m[0].addr, "/c"); b->m[0].n = 1; b->m[0].a[0].b = NULL; b->m[0].a[0].v = in_u32(); } return b; }
static tb_t *sub1(int max){ tb_t *b = &POOL[npool++]; b->n = in_pick(0, max); for(int i = 0; i < b->n; i++){ tm_t *m = &b->m[i]; strcpy(m->addr, "/x"); m->addr[1] += in_pick(0, 1); m->n = in_pick(0, 1); if(m->n){ m->a[0].b = NULL; if(in_pick(0, 1)) m->a[0].b = sub2(); else m->a[0].v = in_u32(); } } return b; }
static const char *const SEPS[] = { "", ".", "::", NULL };
static void tree(tb_t *b){ b->n = in_pick(1, NMSG); for(int i = 0; i < b->n; i++){ tm_t *m = &b->m[i]; strcpy(m->addr, i == 0 ? "/a" : in_pick(0, 1) ? "/b" : "/a/x"); m->n = in_pick(0, i ? 1 : 2); for(int j = 0; j < m->n; j++){ m->a[j].b = NULL; if(in_pick(0, 1)) m->a[j].b = sub1(i || j ? 1 : 2); else m->a[j].v = in_u32(); } } }
void h_flatten(void){
  long live0 = vh_live(); static tb_t R; tree(&R); int max = in_pick(0, 3) - 1, rm = in_pick(0, 1); const char *sep = SEPS[in_pick(0, 3)]; nL = 0; flat(&R, NULL, sep ? sep : "", max, 0, rm); int n = enc_b(REF, &R); t_osc_bndl_u *u = mk_b(&R), *d = NULL; if(in_pick(0, 1)) d = osc_bundle_u_alloc();
  CHECK(osc_bundle_u_flatten(&d, u, max, (char *)sep, rm) == OSC_ERR_NONE, "flattening succeeds"); holds(d, L, nL); int k = ser(u, OUT, sizeof OUT); CHECK(k == n && vh_same(OUT, REF, n), "the source is unchanged");
  static unsigned char D[1024]; k = ser(d, D, sizeof D); t_osc_bndl_s *s = osc_bundle_s_alloc(n, g_heap(REF, n)), *ds = NULL; CHECK(osc_bundle_s_flatten(&ds, s, max, (char *)sep, rm) == OSC_ERR_NONE, "flattening succeeds"); CHECK(osc_bundle_s_getLen(ds) == k && vh_same(osc_bundle_s_getPtr(ds), D, k), "the serialised form flattens alike"); CHECK(vh_same(osc_bundle_s_getPtr(s), REF, n), "the source is unchanged"); osc_bundle_s_deepFree(s); osc_bundle_s_deepFree(ds); osc_bundle_u_free(u); osc_bundle_u_free(d); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* explode: addresses of up to three components, none a prefix of another */
static const char *const AD[] = { "/a", "/b", "/a/b", "/a/c", "/a/b/c", "/a/b/d", "/b/a", "/ab/c", "/c/b/a", "/a/bc" };
static int prefix(const char *p, const char *a){ int n = strlen(p); return !strncmp(p, a, n) && (a[n] == 0 || a[n] == '/'); }
static void leaves(t_osc_bndl_u *u, const char *pfx, int depth, int max, char sep){ /* collect and check the shape */
  for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)){ char *a = osc_message_u_getAddress(m); CHECK(a && a[0] == '/', "address"); if(max < 0 || depth < max) for(char *q = a + 1; *q; q++) CHECK(*q != sep, "one component per level"); for(t_osc_msg_u *o = osc_message_u_next(m); o; o = osc_message_u_next(o)) CHECK(strcmp(a, osc_message_u_getAddress(o)) != 0, "each address once per bundle");
    char f[48]; strcpy(f, pfx); strcat(f, sep != '/' && *pfx ? a + 1 : a); int n = osc_message_u_getArgCount(m); t_osc_atom_u *x = osc_message_u_getArg(m, 0); if(n == 1 && osc_atom_u_getTypetag(x) == '.'){ if(sep != '/'){ char s[2] = { sep, 0 }; strcat(f, s); } leaves(osc_atom_u_getBndl(x), f, depth + 1, max, sep); }
    else { tm_t *o = &L[nL++]; strcpy(o->addr, f); o->n = n; for(int i = 0; i < n; i++){ o->a[i].b = NULL; x = osc_message_u_getArg(m, i); CHECK(osc_atom_u_getTypetag(x) == 'i', "type"); o->a[i].v = (uint32_t)osc_atom_u_getInt32(x); } } } }
void h_explode(void){
  long live0 = vh_live(); static tb_t R; R.n = in_pick(1, NMSG + 1); for(int i = 0; i < R.n; i++){ strcpy(R.m[i].addr, AD[in_pick(0, 9)]); R.m[i].n = in_pick(0, 1); if(R.m[i].n){ R.m[i].a[0].b = NULL; R.m[i].a[0].v = in_u32(); } } for(int i = 0; i < R.n; i++) for(int j = 0; j < R.n; j++) if(i != j && prefix(R.m[i].addr, R.m[j].addr)) return;
  int dot = in_pick(0, 1); char sep[2] = { dot ? '.' : '/', 0 }; int max = in_pick(0, 4) - 1; if(dot) for(int i = 0; i < R.n; i++) for(char *q = R.m[i].addr + 1; *q; q++) if(*q == '/') *q = '.';
  int n = enc_b(REF, &R); t_osc_bndl_u *u = mk_b(&R), *d = NULL; CHECK(osc_bundle_u_explode(&d, u, max, dot ? sep : in_pick(0, 1) ? sep : NULL) == OSC_ERR_NONE, "exploding succeeds"); nL = 0; leaves(d, "", 0, max, *sep); CHECK(nL == R.n, "number of leaves"); for(int i = 0; i < R.n; i++){ int f = -1; for(int j = 0; j < nL; j++) if(!strcmp(L[j].addr, R.m[i].addr)) f = j; CHECK(f >= 0, "every message is there under its full address"); CHECK(L[f].n == R.m[i].n && (!L[f].n || L[f].a[0].v == R.m[i].a[0].v), "arguments of a message"); }
  if(!dot){ t_osc_bndl_u *fl = NULL; osc_bundle_u_flatten(&fl, d, 0, "", 0); tm_t K[4]; int nk = 0; for(int i = 0; i < R.n; i++) K[nk++] = R.m[i]; for(int i = 0; i < nk; i++){ t_osc_msg_u *m = osc_bundle_u_getFirstMsg(fl); while(m && strcmp(osc_message_u_getAddress(m), K[i].addr)) m = osc_message_u_next(m); CHECK(m != NULL, "flattening an exploded bundle gives the addresses back"); int z = enc_m(TMP, &K[i]); CHECK(osc_message_u_getSerializedSize(m) == z, "size"); osc_message_u_nserialize((char *)OUT, sizeof OUT, m); CHECK(vh_same(OUT, TMP, z), "flattening an exploded bundle gives the arguments back"); } osc_bundle_u_free(fl); int e = 0; for(int i = 0; i < nk; i++) e |= K[i].n == 0; if(!e){ fl = NULL; osc_bundle_u_flatten(&fl, d, 0, NULL, 1); holds(fl, K, nk); osc_bundle_u_free(fl); REACH("roundtrip"); } }
  int k = ser(u, OUT, sizeof OUT); CHECK(k == n && vh_same(OUT, REF, n), "the source is unchanged"); static unsigned char D[1024]; k = ser(d, D, sizeof D); t_osc_bndl_s *s = osc_bundle_s_alloc(n, g_heap(REF, n)), *ds = NULL; CHECK(osc_bundle_s_explode(&ds, s, max, sep) == OSC_ERR_NONE, "exploding succeeds"); CHECK(osc_bundle_s_getLen(ds) == k && vh_same(osc_bundle_s_getPtr(ds), D, k), "the serialised form explodes alike"); osc_bundle_s_deepFree(s); osc_bundle_s_deepFree(ds); osc_bundle_u_free(u); osc_bundle_u_free(d); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* one address a prefix of another, or the same: messages join and replace one another in order */
static void xins(tb_t *d, const char *addr, const tm_t *src, int lev, int max){
  tm_t o = *src; int last = max >= 0 && lev >= max, i = 1; if(!last) while(addr[i] && addr[i] != '/') i++; else i = strlen(addr); int at = -1; if(!last) for(int j = 0; j < d->n; j++) if((int)strlen(d->m[j].addr) == i && !memcmp(d->m[j].addr, addr, i)) at = j; memcpy(o.addr, addr, i); o.addr[i] = 0;
  if(!last && addr[i]){ tb_t *b = at >= 0 && d->m[at].n == 1 && d->m[at].a[0].b ? d->m[at].a[0].b : NULL; if(!b){ b = &POOL[npool++]; b->n = 0; } xins(b, addr + i, src, lev + 1, max); o.n = 1; o.a[0].b = b; } if(at >= 0) d->m[at] = o; else d->m[d->n++] = o; }
static int same_tree(t_osc_bndl_u *u, const tb_t *r){
  if(osc_bundle_u_getMsgCount(u) != r->n) return 0; int used[3] = { 0 }; for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)){ int f = 0; for(int i = 0; i < r->n && !f; i++){ const tm_t *o = &r->m[i]; if(used[i] || strcmp(o->addr, osc_message_u_getAddress(m)) || osc_message_u_getArgCount(m) != o->n) continue; int ok = 1; for(int j = 0; j < o->n && ok; j++){ t_osc_atom_u *x = osc_message_u_getArg(m, j); char t = osc_atom_u_getTypetag(x); if(o->a[j].b) ok = t == '.' && same_tree(osc_atom_u_getBndl(x), o->a[j].b); else ok = t == 'i' && (uint32_t)osc_atom_u_getInt32(x) == o->a[j].v; } if(ok) used[i] = f = 1; } if(!f) return 0; } return 1; }
void h_explode_over(void){
  static const char *const PD[] = { "/a", "/a/b", "/a/b/c", "/a/d", "/c" }; long live0 = vh_live(); static tb_t R, D; R.n = in_pick(1, 3); for(int i = 0; i < R.n; i++){ strcpy(R.m[i].addr, PD[in_pick(0, 4)]); R.m[i].n = in_pick(0, 2); for(int j = 0; j < R.m[i].n; j++){ R.m[i].a[j].b = NULL; R.m[i].a[j].v = 10 * i + j; } } int max = in_pick(0, 3) - 1; if(R.m[0].n) R.m[0].a[0].v = in_u32();
  npool = 0; D.n = 0; for(int i = 0; i < R.n; i++) xins(&D, R.m[i].addr, &R.m[i], 0, max); int n = enc_b(REF, &R); t_osc_bndl_u *u = mk_b(&R), *d = NULL; CHECK(osc_bundle_u_explode(&d, u, max, in_pick(0, 1) ? "/" : NULL) == OSC_ERR_NONE, "exploding succeeds"); CHECK(same_tree(d, &D), "later messages join and replace earlier ones");
  int k = ser(u, OUT, sizeof OUT); CHECK(k == n && vh_same(OUT, REF, n), "the source is unchanged"); static unsigned char S[1024]; k = ser(d, S, sizeof S); t_osc_bndl_s *s = osc_bundle_s_alloc(n, g_heap(REF, n)), *ds = NULL; CHECK(osc_bundle_s_explode(&ds, s, max, "/") == OSC_ERR_NONE, "exploding succeeds"); CHECK(osc_bundle_s_getLen(ds) == k && vh_same(osc_bundle_s_getPtr(ds), S, k), "the serialised form explodes alike"); osc_bundle_s_deepFree(s); osc_bundle_s_deepFree(ds); osc_bundle_u_free(u); osc_bundle_u_free(d); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* any single address, any separator, any level: terminates inside its memory and keeps the arguments */
void h_explode_any(void){
  long live0 = vh_live(); static g_msg m; m.alen = in_pick(1, ALEN); m.addr[0] = '/'; for(int i = 1; i < m.alen; i++){ uint8_t c = in_u8(); ASSUME((c == 'a') | (c == '/') | (c == '.')); m.addr[i] = c; } m.addr[m.alen] = 0; m.n = 1; m.a[0].tt = 'i'; m.a[0].bits = in_u32(); t_osc_bndl_u *u = osc_bundle_u_alloc(), *d = NULL; osc_bundle_u_addMsg(u, g_build(&m)); static const char *const S[] = { "/", ".", "a", "" }; int max = in_pick(0, 2) - 1; CHECK(osc_bundle_u_explode(&d, u, max, (char *)S[in_pick(0, 3)]) == OSC_ERR_NONE, "exploding succeeds");
  t_osc_bndl_u *p = d; t_osc_atom_u *x; int depth = 0; for(;;){ CHECK(osc_bundle_u_getMsgCount(p) == 1, "one message"); t_osc_msg_u *q = osc_bundle_u_getFirstMsg(p); CHECK(osc_message_u_getArgCount(q) == 1, "one argument"); x = osc_message_u_getArg(q, 0); if(osc_atom_u_getTypetag(x) != '.') break; p = osc_atom_u_getBndl(x); depth++; } CHECK(g_eq_u(x, &m.a[0]), "the argument"); CHECK(max < 0 || depth <= max, "depth"); osc_bundle_u_free(u); osc_bundle_u_free(d); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
