#include "gen.h"
#ifndef NOPS
#define NOPS 3
#endif
#ifndef INIT
#define INIT 3
#endif
static g_arg POOL[24]; static int np; static unsigned char W[1024], REF[1024];
/* the message holds exactly the sequence L, whichever way it is traversed */
static void same(t_osc_msg_u *m, g_arg *const *L, int n){
  CHECK(osc_message_u_getArgCount(m) == n, "argument count"); for(int i = 0; i < n; i++){ t_osc_atom_u *x = osc_message_u_getArg(m, i); CHECK(x && g_eq_u(x, L[i]), "argument by index"); } CHECK(osc_message_u_getArg(m, n) == NULL && osc_message_u_getArg(m, -1) == NULL, "no argument there");
  t_osc_msg_it_u *it = osc_msg_it_u_get(m); for(int i = 0; i < n; i++){ CHECK(osc_msg_it_u_hasNext(it), "iteration goes on"); t_osc_atom_u *x = osc_msg_it_u_next(it); CHECK(x == osc_message_u_getArg(m, i), "iteration and index agree"); } CHECK(!osc_msg_it_u_hasNext(it), "iteration ends after the last argument"); osc_msg_it_u_destroy(it);
}
static void bytes(t_osc_msg_u *m, const char *addr, g_arg *const *L, int n){ static g_msg r; strcpy(r.addr, addr); r.alen = strlen(addr); r.n = n; for(int i = 0; i < n; i++) r.a[i] = *L[i]; int k = g_enc_msg(REF, &r); CHECK(osc_message_u_getSerializedSize(m) == k, "announced size"); char *o = malloc(k); CHECK((int)osc_message_u_nserialize(o, k, m) == k && vh_same(o, REF, k), "bytes of the edited message"); free(o); }
static g_arg *fresh(const char *types){ g_arg *a = &POOL[np++]; int k = in_pick(0, (int)strlen(types) - 1); if(types[k] == '.') g_nested(a); else { a->tt = types[k]; g_value(a); } return a; }
static void ins(g_arg **L, int *n, int at, g_arg *a){ for(int i = *n; i > at; i--) L[i] = L[i - 1]; L[at] = a; ++*n; }
static t_osc_atom_u *mk(g_arg *a){ t_osc_atom_u *x = osc_atom_u_alloc(); g_set(x, a); return x; }
static int clamp(int pos, int n){ return pos < 0 ? 0 : pos > n ? n : (int)vh_concretize((unsigned)pos); }
/* B06: sequences of edits */
void h_edit(void){
  long live0 = vh_live(); t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, "/x"); g_arg *L[24]; int n = 0, k = in_pick(0, NOPS); for(int i = in_pick(0, INIT); i > 0; i--){ g_arg *a = fresh("i"); osc_message_u_appendAtom(m, mk(a)); ins(L, &n, n, a); }
  for(int s = 0; s < k; s++){
    switch(in_pick(0, 6)){
    case 0: { g_arg *a = fresh("is"); osc_message_u_appendAtom(m, mk(a)); ins(L, &n, n, a); REACH("append"); break; }
    case 1: { g_arg *a = fresh("i"); osc_message_u_prependAtom(m, mk(a)); ins(L, &n, 0, a); REACH("prepend"); break; }
    case 2: { g_arg *a = fresh("i"); int pos = (int)in_u32(); if(pos > 0 && pos < n) pos = (int)vh_concretize((unsigned)pos); osc_message_u_insertAtom(m, mk(a), pos); ins(L, &n, clamp(pos, n), a); REACH("insert"); break; }
    case 3: if(n){ int i = in_pick(0, n - 1); t_osc_atom_u *x = osc_message_u_getArg(m, i); osc_message_u_removeAtom(m, x); CHECK(g_eq_u(x, L[i]), "a removed atom keeps its value"); osc_atom_u_free(x); for(int j = i; j < n - 1; j++) L[j] = L[j + 1]; n--; REACH("remove"); } break;
    case 4: if(n){ int i = in_pick(0, n - 1), j = in_pick(0, n - 1); t_osc_atom_u *x = osc_message_u_getArg(m, i); g_arg *a = L[i]; osc_message_u_removeAtom(m, x); for(int q = i; q < n - 1; q++) L[q] = L[q + 1]; n--; int how = in_pick(0, 2); if(how == 0){ osc_message_u_insertAtom(m, x, j); ins(L, &n, j, a); } else if(how == 1){ osc_message_u_appendAtom(m, x); ins(L, &n, n, a); } else { osc_message_u_prependAtom(m, x); ins(L, &n, 0, a); } REACH("move"); } break;
    case 5: osc_message_u_clearArgs(m); n = 0; REACH("clear"); break;
    case 6: { t_osc_atom_ar_u *ar = osc_message_u_getArgArrayCopy(m); CHECK(osc_atom_array_u_getLen(ar) == n, "length of the copied argument list"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(ar, i), L[i]), "copied argument"); if(2 * n + k - s - 1 <= 6){ CHECK(osc_message_u_setArgArrayCopy(m, ar) == OSC_ERR_NONE, "appending a list succeeds"); for(int i = 0, q = n; i < q; i++) ins(L, &n, n, L[i]); } osc_atom_array_u_free(ar); REACH("array"); break; }
    }
    same(m, L, n);
  }
  bytes(m, "/x", L, n); int end = in_pick(0, 1);
  while(end && n){ int i = end == 1 && n > 1 ? n - 2 : 0; t_osc_atom_u *x = osc_message_u_getArg(m, i); osc_message_u_removeAtom(m, x); osc_atom_u_free(x); for(int j = i; j < n - 1; j++) L[j] = L[j + 1]; n--; same(m, L, n); }
  osc_message_u_free(m); CHECK(vh_live() == live0, "no heap block is left");
}
/* B06: every typed append, prepend and insert */
static t_osc_atom_u *typed(t_osc_msg_u *m, g_arg *a, int op, int pos){
#define T(c, N, v) case c: return op == 0 ? osc_message_u_append##N(m, v) : op == 1 ? osc_message_u_prepend##N(m, v) : osc_message_u_insert##N(m, v, pos);
#define T0(c, N) case c: return op == 0 ? osc_message_u_append##N(m) : op == 1 ? osc_message_u_prepend##N(m) : osc_message_u_insert##N(m, pos);
  unsigned char blob[72]; memset(blob, 0, sizeof blob); wr32(blob, a->len); memcpy(blob + 4, a->b, a->len);
  switch(a->tt){
  T('c', Int8, (int8_t)a->bits) T('C', UInt8, (uint8_t)a->bits) T('u', Int16, (int16_t)a->bits) T('U', UInt16, (uint16_t)a->bits) T('i', Int32, (int32_t)a->bits) T('I', UInt32, (uint32_t)a->bits) T('h', Int64, (int64_t)a->bits) T('H', UInt64, a->bits)
  T('f', Float, u2f((uint32_t)a->bits)) T('d', Double, u2d(a->bits)) T('s', String, (char *)a->b) T('t', Timetag, g_tt(a->bits)) T('b', Blob, (char *)blob) T0('T', True) T0('F', False) T0('N', Nil)
  case '.': return op == 0 ? osc_message_u_appendBndl_s(m, a->len, (char *)a->b) : op == 1 ? osc_message_u_prependBndl_s(m, a->len, (char *)a->b) : osc_message_u_insertBndl_s(m, a->len, (char *)a->b, pos);
  case 'z': return op == 0 ? osc_message_u_appendBool(m, (int)a->bits) : op == 1 ? osc_message_u_prependBool(m, (int)a->bits) : osc_message_u_insertBool(m, (int)a->bits, pos);
  case 'p': { char *k = g_heap(a->b, a->len + 1); return op == 0 ? osc_message_u_appendStringPtr(m, k) : op == 1 ? osc_message_u_prependStringPtr(m, k) : osc_message_u_insertStringPtr(m, k, pos); }
  case ':': return op == 0 ? osc_message_u_appendBndl(m, a->len, (char *)a->b) : op == 1 ? osc_message_u_prependBndl(m, a->len, (char *)a->b) : osc_message_u_insertBndl(m, a->len, (char *)a->b, pos);
  case '=': return op == 0 ? osc_message_u_appendBndl_u(m, osc_bundle_s_deserialize(a->len, (char *)a->b)) : op == 1 ? osc_message_u_prependBndl_u(m, osc_bundle_s_deserialize(a->len, (char *)a->b)) : osc_message_u_insertBndl_u(m, osc_bundle_s_deserialize(a->len, (char *)a->b), pos);
  }
  return NULL;
}
void h_typed(void){
  static const char TY[] = "cCuUiIhHfdstbTFN.z=:p"; long live0 = vh_live(); char *own = NULL; t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, "/x"); g_arg *L[6]; int n = 0, k = in_pick(0, 2); for(int i = 0; i < k; i++){ g_arg *a = fresh("i"); osc_message_u_appendInt32(m, (int32_t)a->bits); ins(L, &n, n, a); }
  for(int q = 0; q < 2; q++){
    g_arg *a = &POOL[np++]; char t = q ? 'i' : TY[in_pick(0, (int)sizeof TY - 2)]; if(t == '.' || t == '=' || t == ':') g_nested(a); else { a->tt = t == 'p' ? 's' : t; g_value(a); } int op = in_pick(0, 2), pos = 0; if(op == 2){ pos = (int)in_u32(); if(pos > 0 && pos < n) pos = (int)vh_concretize((unsigned)pos); } a->tt = t; if(t == 'z') a->bits = in_u32();
    t_osc_atom_u *x = typed(m, a, op, pos); if(t == 'z') a->tt = (int32_t)a->bits ? 'T' : 'F'; if(t == '=' || t == ':') a->tt = '.'; if(t == 'p'){ a->tt = 's'; own = osc_atom_u_getStringPtr(x); } int at = op == 0 ? n : op == 1 ? 0 : clamp(pos, n); ins(L, &n, at, a); CHECK(x && osc_message_u_getArg(m, at) == x, "the new atom is the argument at its position"); same(m, L, n);
  }
  bytes(m, "/x", L, n); osc_message_u_free(m); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* B06: message constructors, address changes */
void h_msg(void){
  long live0 = vh_live(); char ad[16]; int na = g_addr_chars(ad, 1, 5, 0); g_arg *L[4]; int n = 0; t_osc_msg_u *m = NULL; static g_arg A; unsigned char blob[72]; memset(blob, 0, sizeof blob);
  switch(in_pick(0, 7)){
  case 0: m = osc_message_u_allocWithAddress(ad); break;
  case 1: A.tt = 'f'; A.bits = in_u32(); m = osc_message_u_allocWithFloat(ad, u2f((uint32_t)A.bits)); n = 1; break;
  case 2: A.tt = 's'; g_value(&A); m = osc_message_u_allocWithString(ad, (char *)A.b); n = 1; break;
  case 3: A.tt = 't'; A.bits = in_u64(); m = osc_message_u_allocWithTimetag(ad, g_tt(A.bits)); n = 1; break;
  case 4: A.tt = 'b'; g_value(&A); wr32(blob, A.len); memcpy(blob + 4, A.b, A.len); m = osc_message_u_allocWithBlob(ad, (char *)blob); n = 1; break;
  case 5: A.tt = 'd'; A.bits = in_u64(); m = osc_message_u_allocWithDouble(ad, u2d(A.bits)); n = 1; break;
  case 6: A.tt = 'i'; A.bits = in_u32(); m = osc_message_u_allocWithInt(ad, (int)A.bits); n = 1; break;
  case 7: { t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(n = in_pick(0, 2)); osc_atom_array_u_clear(ar); for(int i = 0; i < n; i++){ g_arg *a = i ? fresh("i") : &A; if(!i){ A.tt = 's'; g_value(&A); } L[i] = a; g_set(osc_atom_array_u_get(ar, i), a); } m = osc_message_u_allocWithArray(ad, ar); osc_atom_array_u_free(ar); break; }
  }
  L[0] = &A; CHECK(m && g_str_eq(osc_message_u_getAddress(m), ad), "address"); same(m, L, n); char a2[16]; g_addr_chars(a2, 1, 6, 0); CHECK(osc_message_u_setAddress(m, a2) == OSC_ERR_NONE && g_str_eq(osc_message_u_getAddress(m), a2), "new address"); uint8_t c = in_u8(); char bad[3] = { (char)c, 'a', 0 }; if(c != '/'){ CHECK(osc_message_u_setAddress(m, bad) != OSC_ERR_NONE && g_str_eq(osc_message_u_getAddress(m), a2), "an address without a leading slash is refused and changes nothing"); }
  bytes(m, a2, L, n); osc_message_u_free(m); CHECK(vh_live() == live0, "no heap block is left"); (void)na; REACH("done");
}
/* B07: copies */
static g_msg M; static g_bndl B;
static void any(g_msg *m, int nargs, const char *types){ m->alen = g_addr_chars(m->addr, 1, 4, 0); m->n = in_pick(0, nargs); for(int i = 0; i < m->n; i++){ int k = in_pick(0, (int)strlen(types) - 1); if(types[k] == '.') g_nested(&m->a[i]); else { m->a[i].tt = types[k]; g_value(&m->a[i]); } } }
static void ser_is(t_osc_msg_u *m, const unsigned char *ref, int n){ CHECK(osc_message_u_getSerializedSize(m) == n, "size"); char *o = malloc(n); osc_message_u_nserialize(o, n, m); CHECK(vh_same(o, ref, n), "bytes"); free(o); }
static void spoil(t_osc_msg_u *m, int how){ /* change the message in some way, then free it */
  switch(how){ case 0: osc_message_u_setAddress(m, "/zz"); break; case 1: osc_message_u_clearArgs(m); break; case 2: for(int i = 0; i < osc_message_u_getArgCount(m); i++) osc_atom_u_setInt32(osc_message_u_getArg(m, i), 77); break; case 3: for(int i = 0; i < osc_message_u_getArgCount(m); i++){ t_osc_atom_u *x = osc_message_u_getArg(m, i); char t = osc_atom_u_getTypetag(x); if(t == 's'){ char *s = osc_atom_u_getStringPtr(x); for(; *s; s++) *s = 'Q'; } else if(t == 'b'){ char *b = osc_atom_u_getBlob(x); memset(b + 4, 'Q', rd32(b)); } else if(t == '.'){ osc_bundle_u_clear(osc_atom_u_getBndl(x)); } } break; }
  osc_message_u_free(m); }
void h_copy_msg_u(void){
  long live0 = vh_live(); any(&M, NOPS, "isb.T"); int n = g_enc_msg(REF, &M); t_osc_msg_u *a = g_build(&M), *c = NULL; if(in_bool()){ c = osc_message_u_alloc(); osc_message_u_setAddress(c, "/old"); osc_message_u_appendString(c, "old"); }
  CHECK(osc_message_u_deepCopy(&c, a) == OSC_ERR_NONE && c != a, "a deep copy is another message"); ser_is(c, REF, n); if(in_bool()){ spoil(a, in_pick(0, 3)); ser_is(c, REF, n); osc_message_u_free(c); } else { spoil(c, in_pick(0, 3)); ser_is(a, REF, n); osc_message_u_free(a); } CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
static void bser_is(t_osc_bndl_u *b, const unsigned char *ref, int n){ t_osc_bndl_s *s = osc_bundle_u_serialize(b); CHECK(osc_bundle_s_getLen(s) == n, "size"); CHECK(vh_same(osc_bundle_s_getPtr(s), ref, n), "bytes"); osc_bundle_s_deepFree(s); }
static void bspoil(t_osc_bndl_u *b, int how){ if(how == 0) osc_bundle_u_clear(b); else { t_osc_msg_u *m = osc_bundle_u_getFirstMsg(b); if(m){ if(how == 1) osc_message_u_setAddress(m, "/zz"); else if(how == 2) osc_message_u_clearArgs(m); else osc_bundle_u_removeMsg(b, m); if(how == 3) osc_message_u_free(m); } } osc_bundle_u_free(b); }
void h_copy_bndl_u(void){
  long live0 = vh_live(); B.tt = 0; B.n = in_pick(0, 2); for(int i = 0; i < B.n; i++) any(&B.m[i], i ? 1 : 2, i ? "i." : "isb."); int n = g_enc_bndl(REF, &B); t_osc_bndl_u *a = g_build_bndl(&B), *c = NULL; CHECK(osc_bundle_u_copy(&c, a) == OSC_ERR_NONE && c != a, "a copy is another bundle"); bser_is(c, REF, n);
  if(in_bool()){ bspoil(a, in_pick(0, 3)); bser_is(c, REF, n); osc_bundle_u_free(c); } else { bspoil(c, in_pick(0, 3)); bser_is(a, REF, n); osc_bundle_u_free(a); } CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* copies of atoms, in both forms */
void h_copy_atom(void){
  long live0 = vh_live(); g_arg *a = &M.a[0]; static const char TY[] = "ifhdIHcCuUTFNstb."; int k = in_pick(0, 16); if(TY[k] == '.') g_nested(a); else { a->tt = TY[k]; g_value(a); } strcpy(M.addr, "/a"); M.alen = 2; M.n = 1;
  t_osc_atom_u *x = mk(a), *y = osc_atom_u_copy(x), *z = NULL; CHECK(y != x && g_eq_u(y, a), "copy of an atom"); if(in_bool()) osc_atom_u_setInt32(x, 7); osc_atom_u_free(x); CHECK(g_eq_u(y, a), "a copy does not depend on the original"); osc_atom_u_copyInto(&z, y); osc_atom_u_free(y); CHECK(g_eq_u(z, a), "a copy does not depend on the original"); osc_atom_u_free(z);
  int n = g_enc_msg(REF, &M); char *w = g_heap(REF, n); t_osc_msg_s *ms = osc_message_s_alloc(); osc_message_s_wrap(ms, w); t_osc_atom_s *s = NULL; osc_message_s_getArg(ms, 0, &s); t_osc_atom_u *d = osc_atom_s_deserialize(s); CHECK(d && g_eq_u(d, a), "unserialised copy of a serialised atom"); t_osc_bndl_s *bc = NULL; if(a->tt == '.') bc = osc_atom_s_getBndlCopy(s);
  osc_atom_s_free(s); osc_message_s_free(ms); memset(w, 0x55, n); free(w); CHECK(g_eq_u(d, a), "an unserialised copy does not depend on the bytes"); if(bc){ CHECK(osc_bundle_s_getLen(bc) == a->len && vh_same(osc_bundle_s_getPtr(bc), a->b, a->len), "copy of a nested bundle"); osc_bundle_s_deepFree(bc); } osc_atom_u_free(d); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* copies of serialised messages and bundles */
void h_copy_s(void){
  long live0 = vh_live(); B.tt = in_u64(); B.n = in_pick(0, 2); for(int i = 0; i < B.n; i++) any(&B.m[i], 1, "is."); int n = g_enc_bndl(REF, &B), off[4]; g_walk(REF, n, off, 4); char *w = g_heap(REF, n); t_osc_bndl_s *b = osc_bundle_s_alloc(n, w), *c = NULL; CHECK(osc_bundle_s_deepCopy(&c, b) == OSC_ERR_NONE && c != b && osc_bundle_s_getLen(c) == n && osc_bundle_s_getPtr(c) != w && vh_same(osc_bundle_s_getPtr(c), REF, n), "copy of a bundle");
  t_osc_msg_s *m = NULL, *mc = NULL; if(B.n){ m = osc_message_s_alloc(); osc_message_s_wrap(m, w + off[0]); if(in_bool()){ t_osc_atom_s *x = NULL; osc_message_s_getArg(m, 0, &x); osc_atom_s_free(x); } osc_message_s_copy(&mc, m); CHECK(mc && mc != m && osc_message_s_getPtr(mc) == w + off[0], "a copied message refers to the same bytes"); osc_message_s_free(m); CHECK(g_str_eq(osc_message_s_getAddress(mc), B.m[0].addr) && osc_message_s_getArgCount(mc) == B.m[0].n, "a copied message outlives the original"); for(int i = 0; i < B.m[0].n; i++){ t_osc_atom_s *x = NULL; osc_message_s_getArg(mc, i, &x); CHECK(x && g_eq_s(x, &B.m[0].a[i]), "argument of a copied message"); osc_atom_s_free(x); } osc_message_s_free(mc); }
  memset(w, 0x55, n); osc_bundle_s_deepFree(b); CHECK(osc_bundle_s_getLen(c) == n && vh_same(osc_bundle_s_getPtr(c), REF, n), "a copy does not depend on the original"); if(in_bool()) memset(osc_bundle_s_getPtr(c), 0x33, n); osc_bundle_s_deepFree(c);
  CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* adding copies of messages */
void h_add_copies(void){
  long live0 = vh_live(); B.tt = 0; B.n = in_pick(1, 2); for(int i = 0; i < B.n; i++){ any(&B.m[i], 1, "is."); } int n = g_enc_bndl(REF, &B); t_osc_bndl_u *b = osc_bundle_u_alloc(); t_osc_msg_u *m[2]; for(int i = 0; i < B.n; i++) m[i] = g_build(&B.m[i]); int how = in_pick(0, 2);
  if(how == 0){ for(int i = 0; i < B.n; i++) CHECK(osc_bundle_u_addMsgCopy(b, m[i]) == OSC_ERR_NONE, "adding a copy succeeds"); }
  else if(how == 1){ if(B.n == 2) ASSUME(!(B.m[0].alen == B.m[1].alen && vh_same(B.m[0].addr, B.m[1].addr, B.m[0].alen))); for(int i = 0; i < B.n; i++) CHECK(osc_bundle_u_addMsgWithoutDupsCopy(b, m[i]) == OSC_ERR_NONE, "adding a copy succeeds"); }
  else { t_osc_msg_ar_u *ar = osc_message_array_u_alloc(B.n); for(int i = 0; i < B.n; i++){ t_osc_msg_u *d = osc_message_array_u_get(ar, i); osc_message_u_deepCopy(&d, m[i]); } CHECK(osc_bundle_u_addMsgArrayCopy(b, ar) == OSC_ERR_NONE, "adding copies succeeds"); osc_message_array_u_free(ar); }
  for(int i = 0; i < B.n; i++) spoil(m[i], 3); CHECK(osc_bundle_u_getMsgCount(b) == B.n, "message count"); bser_is(b, REF, n); osc_bundle_u_free(b); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* D03: arrays of messages and bundles */
void h_objects(void){
  long live0 = vh_live(); int n = in_pick(0, 3); static g_msg A[3]; static unsigned char E[3][256]; int z[3];
  t_osc_msg_ar_u *ar = osc_message_array_u_alloc(n); CHECK(osc_message_array_u_getLen(ar) == n, "length"); for(int i = 0; i < n; i++){ any(&A[i], 1, "is"); z[i] = g_enc_msg(E[i], &A[i]); t_osc_msg_u *m = g_build(&A[i]), *d = osc_message_array_u_get(ar, i); CHECK(d && osc_message_u_deepCopy(&d, m) == OSC_ERR_NONE && d == osc_message_array_u_get(ar, i), "copying into an element"); osc_message_u_free(m); }
  long ix = (long)in_u64(); t_osc_msg_u *p = osc_message_array_u_get(ar, ix); CHECK((p != NULL) == (ix >= 0 && ix < n), "an element for every valid index and only those"); for(int i = 0; i < n; i++) ser_is(osc_message_array_u_get(ar, i), E[i], z[i]);
  int more = in_pick(0, 2); CHECK(osc_message_array_u_resize(ar, n + more) == OSC_ERR_NONE && osc_message_array_u_getLen(ar) == n + more, "resizing"); for(int i = 0; i < n; i++) ser_is(osc_message_array_u_get(ar, i), E[i], z[i]); for(int i = n; i < n + more; i++) CHECK(osc_message_u_getArgCount(osc_message_array_u_get(ar, i)) == 0, "new elements are empty"); osc_message_array_u_free(ar);
  t_osc_msg_ar_s *as = osc_message_array_s_alloc(n), *c; char *w[3]; for(int i = 0; i < n; i++){ w[i] = g_heap(E[i], z[i]); t_osc_msg_s *m = osc_message_array_s_get(as, i); osc_message_s_initMsg(m); osc_message_s_wrap(m, w[i]); } c = osc_message_array_s_copy(as); CHECK(osc_message_array_s_getLen(as) == n && osc_message_array_s_getLen(c) == n, "length"); CHECK(osc_message_array_s_get(as, n) == NULL && osc_message_array_s_get(as, -1) == NULL, "no other element"); osc_message_array_s_resize(c, n + more); CHECK(osc_message_array_s_getLen(c) == n + more, "resizing"); for(int i = 0; i < n; i++) for(int j = 0; j < 2; j++){ t_osc_msg_s *m = osc_message_array_s_get(j ? c : as, i); CHECK(osc_message_s_getPtr(m) == w[i] && g_str_eq(osc_message_s_getAddress(m), A[i].addr), "element"); } osc_message_array_s_clear(c); osc_message_array_s_free(as); osc_message_array_s_free(c);
  t_osc_bndl_ar_s *b = osc_bundle_array_s_alloc(n), *bc; for(int i = 0; i < n; i++) { t_osc_bndl_s *q = osc_bundle_array_s_get(b, i); osc_bundle_s_setLen(q, z[i]); osc_bundle_s_setPtr(q, w[i]); } bc = osc_bundle_array_s_copy(b); CHECK(osc_bundle_array_s_getLen(bc) == n && osc_bundle_array_s_resize(bc, n + more) == OSC_ERR_NONE && osc_bundle_array_s_getLen(bc) == n + more, "length"); for(int i = 0; i < n; i++) CHECK(osc_bundle_s_getPtr(osc_bundle_array_s_get(bc, i)) == w[i] && osc_bundle_s_getLen(osc_bundle_array_s_get(bc, i)) == z[i] && osc_bundle_s_getPtr(osc_bundle_array_s_get(b, i)) == w[i], "element"); CHECK(osc_bundle_array_s_get(b, n) == NULL && osc_bundle_array_s_get(b, -1) == NULL, "no other element"); osc_bundle_array_s_clear(bc); for(int i = 0; i < n + more; i++) CHECK(osc_bundle_s_getPtr(osc_bundle_array_s_get(bc, i)) == NULL, "cleared element"); osc_bundle_array_s_free(b); osc_bundle_array_s_free(bc);
  for(int i = 0; i < n; i++) free(w[i]); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
