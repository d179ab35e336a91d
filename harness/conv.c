#include "gen.h"
#define NUMT "ifhdIHcCuUTFN"
static g_msg G;
typedef struct { int cls; int64_t s; uint64_t u; double d; float f; } val;   /* 0 signed, 1 unsigned, 2 float, 3 double */
static val v_of(const g_arg *a){
  val v; memset(&v, 0, sizeof v);
  switch(a->tt){
  case 'i': v.s = (int32_t)a->bits; break; case 'h': v.s = (int64_t)a->bits; break; case 'c': v.s = (int8_t)a->bits; break; case 'u': v.s = (int16_t)a->bits; break;
  case 'I': v.cls = 1; v.u = (uint32_t)a->bits; break; case 'H': v.cls = 1; v.u = a->bits; break; case 'C': v.cls = 1; v.u = (uint8_t)a->bits; break; case 'U': v.cls = 1; v.u = (uint16_t)a->bits; break;
  case 'f': v.cls = 2; v.f = u2f((uint32_t)a->bits); break; case 'd': v.cls = 3; v.d = u2d(a->bits); break;
  case 'T': v.s = 1; break; }
  return v;
}
#define AS(T) (v.cls == 0 ? (T)v.s : v.cls == 1 ? (T)v.u : v.cls == 2 ? (T)v.f : (T)v.d)
/* float-to-int conversions are only defined inside the range of the target */
static void inrange(val v, double lo, double hi){ if(v.cls == 2) ASSUME((v.f > lo) & (v.f < hi)); if(v.cls == 3) ASSUME((v.d > lo) & (v.d < hi)); }
#define GET(name, T, lo, hi) do { inrange(v, lo, hi); T e = AS(T); CHECK(osc_atom_u_get##name(u) == e, "unserialised " #name " getter"); CHECK(osc_atom_s_get##name(s) == e, "serialised " #name " getter"); REACH(#name); } while(0)
void h_getters(void){
  g_arg a; g_arg_any(&a, NUMT); val v = v_of(&a);
  unsigned char ref[16]; int n = g_enc_arg(ref, &a); char *w = malloc(n); memcpy(w, ref, n);
  t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a);
  t_osc_atom_s *s = osc_atom_s_alloc(a.tt, w);
  switch(in_pick(0, 11)){
  case 0: GET(Int8, int8_t, -129., 128.); break;
  case 1: GET(Int16, int16_t, -32769., 32768.); break;
  case 2: GET(Int32, int32_t, -2147483648., 2147483648.); break;
  case 3: GET(Int64, int64_t, -9223372036854775808., 9223372036854775808.); break;
  case 4: GET(UInt8, uint8_t, -1., 256.); break;
  case 5: GET(UInt16, uint16_t, -1., 65536.); break;
  case 6: GET(UInt32, uint32_t, -1., 4294967296.); break;
  case 7: GET(UInt64, uint64_t, -1., 18446744073709551616.); break;
  case 8: GET(Int, int, -2147483648., 2147483648.); break;
  case 9: { uint32_t e = f2u(AS(float)); CHECK(f2u(osc_atom_u_getFloat(u)) == e, "unserialised Float getter"); CHECK(f2u(osc_atom_s_getFloat(s)) == e, "serialised Float getter"); REACH("Float"); break; }
  case 10: { uint64_t e = d2u(AS(double)); CHECK(d2u(osc_atom_u_getDouble(u)) == e, "unserialised Double getter"); CHECK(d2u(osc_atom_s_getDouble(s)) == e, "serialised Double getter"); REACH("Double"); break; }
  case 11: { int e = v.cls == 0 ? v.s != 0 : v.cls == 1 ? v.u != 0 : v.cls == 2 ? v.f != 0 : v.d != 0; CHECK(!osc_atom_u_getBool(u) == !e, "unserialised Bool getter"); CHECK(!osc_atom_s_getBool(s) == !e, "serialised Bool getter"); REACH("Bool"); break; }
  }
  t_osc_atom_u *d = osc_atom_s_deserialize(s); CHECK(g_eq_u(d, &a), "deserialised atom"); osc_atom_u_free(d);
  CHECK(vh_same(w, ref, n), "getters do not write");
  osc_atom_u_free(u); osc_atom_s_free(s); free(w);
}
/* strings read as numbers agree with the C library and between both forms */
void h_getters_str(void){
  g_arg a; a.tt = 's'; a.bits = 0; a.len = in_pick(0, 3); for(int i = 0; i < a.len; i++){ uint8_t c = in_u8(); ASSUME(((c >= '0') & (c <= '9')) | (c == '-') | (c == 'x') | (c == ' ')); a.b[i] = c; } a.b[a.len] = 0;
  unsigned char ref[16]; int n = g_enc_arg(ref, &a); char *w = malloc(n); memcpy(w, ref, n);
  t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a); t_osc_atom_s *s = osc_atom_s_alloc('s', w); char *z = (char *)a.b;
  switch(in_pick(0, 4)){
  case 4: { int16_t e = (int16_t)strtol(z, NULL, 10); uint16_t f = (uint16_t)strtoul(z, NULL, 10); CHECK(osc_atom_u_getInt16(u) == e && osc_atom_s_getInt16(s) == e && osc_atom_u_getUInt16(u) == f && osc_atom_s_getUInt16(s) == f && !osc_atom_u_getBool(u), "string as Int16"); break; }
  case 0: { int32_t e = (int32_t)strtol(z, NULL, 10); CHECK(osc_atom_u_getInt32(u) == e && osc_atom_s_getInt32(s) == e && osc_atom_u_getInt(u) == e && osc_atom_s_getInt(s) == e, "string as Int32"); break; }
  case 1: { int64_t e = strtoll(z, NULL, 10); CHECK(osc_atom_u_getInt64(u) == e && osc_atom_s_getInt64(s) == e, "string as Int64"); break; }
  case 2: { uint32_t e = (uint32_t)strtoul(z, NULL, 10); CHECK(osc_atom_u_getUInt32(u) == e && osc_atom_s_getUInt32(s) == e, "string as UInt32"); break; }
  case 3: { uint64_t e = strtoull(z, NULL, 10); CHECK(osc_atom_u_getUInt64(u) == e && osc_atom_s_getUInt64(s) == e, "string as UInt64"); break; }
  }
  osc_atom_u_free(u); osc_atom_s_free(s); free(w); REACH("done");
}
/* string and blob access, every buffer size */
void h_getstring(void){
  g_arg a; g_arg_any(&a, "s"); unsigned char ref[32]; int n = g_enc_arg(ref, &a); char *w = g_heap(ref, n); long live0;
  t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a); t_osc_atom_s *s = osc_atom_s_alloc('s', w); live0 = vh_live();
  CHECK(osc_atom_u_getStringLen(u) == a.len && osc_atom_s_getStringLen(s) == a.len, "string length");
  char *x = NULL, *y = NULL; CHECK(osc_atom_u_getString(u, 0, &x) == a.len && g_str_eq(x, (char *)a.b), "allocated string copy"); CHECK(osc_atom_s_getString(s, 0, &y) == a.len && g_str_eq(y, (char *)a.b), "allocated string copy of the serialised form"); free(x); free(y);
  int k = in_pick(1, STRMAX + 2); x = malloc(k); memset(x, 0x55, k); osc_atom_u_getString(u, k, &x); y = malloc(k); memset(y, 0x55, k); osc_atom_s_getString(s, k, &y);
  if(k > a.len){ CHECK(g_str_eq(x, (char *)a.b), "string copied into a buffer"); CHECK(g_str_eq(y, (char *)a.b), "string of the serialised form copied into a buffer"); REACH("fits"); } else { CHECK(vh_same(x, a.b, k - 1) && vh_same(y, a.b, k - 1), "prefix copied into a short buffer"); REACH("short"); }
  free(x); free(y); CHECK(vh_live() == live0, "no heap block is left"); osc_atom_u_free(u); osc_atom_s_free(s); free(w);
}
void h_getblob(void){
  g_arg a; g_arg_any(&a, "b"); unsigned char ref[32]; int n = g_enc_arg(ref, &a); char *w = g_heap(ref, n); long live0;
  t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a); t_osc_atom_s *s = osc_atom_s_alloc('b', w); live0 = vh_live();
  CHECK(osc_atom_u_getBlobLen(u) == a.len && osc_atom_s_getBlobLen(s) == a.len, "blob length");
  char *b = osc_atom_s_getBlob(s); CHECK(b && rd32(b) == (uint32_t)a.len && vh_same(b + 4, a.b, a.len), "blob of the serialised form");
  char *x = NULL; int32_t l = 0; osc_atom_u_getBlobCopy(u, &l, &x); CHECK(x && l >= a.len + 4 && rd32(x) == (uint32_t)a.len && vh_same(x + 4, a.b, a.len), "copy of a blob"); free(x);
  x = NULL; l = 0; CHECK(osc_atom_s_getBlobCopy(&x, &l, s) == OSC_ERR_NONE && x && l >= a.len, "copy of a serialised blob"); free(x);
  CHECK(vh_live() == live0, "no heap block is left"); osc_atom_u_free(u); osc_atom_s_free(s); free(w); REACH("done");
}
/* a blob of the right size is a number in network order, of any other size zero; a timetag is a number of seconds */
void h_getters_blob(void){
  g_arg a; a.tt = in_pick(0, 3) ? 'b' : 't'; a.bits = 0; a.len = 0; memset(a.b, 0, sizeof a.b);
  if(a.tt == 'b'){ a.len = in_pick(0, 9); for(int i = 0; i < a.len; i++) a.b[i] = in_u8(); } else a.bits = vh_concretize(in_u64() & 0x8000000180000001ull);
  t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a); uint32_t e4 = a.tt == 'b' && a.len == 4 ? rd32(a.b) : 0; uint64_t e8 = a.tt == 'b' && a.len == 8 ? (uint64_t)rd32(a.b) << 32 | rd32(a.b + 4) : 0;
  double sec = a.tt == 't' ? osc_timetag_timetagToFloat(g_tt(a.bits)) : 0.;
  switch(in_pick(0, 9)){
  case 0: CHECK(osc_atom_u_getInt32(u) == (int32_t)e4, "blob as Int32"); break;
  case 1: CHECK(osc_atom_u_getUInt32(u) == e4, "blob as UInt32"); break;
  case 2: CHECK(osc_atom_u_getInt(u) == (int)e4, "blob as Int"); break;
  case 3: CHECK(osc_atom_u_getInt64(u) == (int64_t)e8, "blob as Int64"); break;
  case 4: CHECK(osc_atom_u_getUInt64(u) == e8, "blob as UInt64"); break;
  case 5: CHECK(f2u(osc_atom_u_getFloat(u)) == (a.tt == 't' ? f2u((float)sec) : e4), "blob as Float"); break;
  case 6: CHECK(d2u(osc_atom_u_getDouble(u)) == (a.tt == 't' ? d2u(sec) : e8), "blob as Double"); break;
  case 7: CHECK(!osc_atom_u_getBool(u), "blob as Bool"); break;
  case 8: { int8_t x = osc_atom_u_getInt8(u); uint8_t y = osc_atom_u_getUInt8(u); CHECK((uint8_t)x == y, "blob as Int8"); break; }
  case 9: { int16_t x = osc_atom_u_getInt16(u); uint16_t y = osc_atom_u_getUInt16(u); CHECK((uint16_t)x == y, "blob as Int16"); break; }
  }
  CHECK(g_eq_u(u, &a), "getters do not change the value"); osc_atom_u_free(u); if(a.tt == 'b') REACH("blob"); else REACH("time");
}
/* any value as a blob: its size, then its bytes in network order; a buffer of the caller's gets what fits */
#ifndef BUFMAX
#define BUFMAX 14
#endif
void h_blobcopy(void){
  g_arg a; g_arg_any(&a, "ifhdIHcCuUTFNstb"); unsigned char e[64], ref[64]; int m = g_enc_arg(e, &a), n = m, ser = in_pick(0, 1); memset(ref, 0, sizeof ref);
  char *w = g_heap(e, m); t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a); t_osc_atom_s *s = osc_atom_s_alloc(a.tt, w); long live0 = vh_live();
  if(a.tt == 'b') memcpy(ref, e, m); else { memcpy(ref + 4, e, m); if(!ser && (a.tt == 'c' || a.tt == 'C')){ n = 1; memset(ref + 4, 0, 4); ref[4] = (unsigned char)a.bits; } if(!ser && (a.tt == 'u' || a.tt == 'U')){ n = 2; memset(ref + 4, 0, 4); ref[4] = (unsigned char)(a.bits >> 8); ref[5] = (unsigned char)a.bits; } wr32(ref, n); n += 4; }
  char *x = NULL; int32_t l = 0; int own = in_pick(0, 1);
  if(own){ l = in_pick(0, BUFMAX); x = malloc(l ? l : 1); memset(x, 'x', l); }
  char *x0 = x;
  if(ser) CHECK(osc_atom_s_getBlobCopy(&x, &l, s) == OSC_ERR_NONE, "copied"); else osc_atom_u_getBlobCopy(u, &l, &x);
  CHECK(x && (!own || x == x0) && (own || l >= n), "the buffer");
  int k = l < n ? l : n; CHECK(vh_same(x, ref, k), "the value as a blob"); for(int i = k; i < l; i++) CHECK(x[i] == 0, "the rest is zero");
  if(own) REACH("given"); else REACH("made");
  free(x); CHECK(vh_live() == live0, "no heap block is left"); osc_atom_u_free(u); osc_atom_s_free(s); free(w);
}
/* W08 */
static void put(t_osc_atom_s *x, g_arg *a){
  switch(a->tt){
  case 'i': osc_atom_s_setInt32(x, (int32_t)a->bits); break; case 'I': osc_atom_s_setUInt32(x, (uint32_t)a->bits); break; case 'f': osc_atom_s_setFloat(x, u2f((uint32_t)a->bits)); break;
  case 'h': osc_atom_s_setInt64(x, (int64_t)a->bits); break; case 'H': osc_atom_s_setUInt64(x, a->bits); break; case 'd': osc_atom_s_setDouble(x, u2d(a->bits)); break;
  case 'c': osc_atom_s_setInt8(x, (int8_t)a->bits); break; case 'C': osc_atom_s_setUInt8(x, (uint8_t)a->bits); break; case 'u': osc_atom_s_setInt16(x, (int16_t)a->bits); break; case 'U': osc_atom_s_setUInt16(x, (uint16_t)a->bits); break;
  case 't': osc_atom_s_setTimetag(x, g_tt(a->bits)); break; case 's': osc_atom_s_setString(x, (char *)a->b); break; case 'T': osc_atom_s_setTrue(x); break; case 'F': osc_atom_s_setFalse(x); break; case 'N': osc_atom_s_setNil(x); break; }
}
void h_inplace(void){
  static const char T[] = "ifhdIHcCuUts"; G.alen = 2; strcpy(G.addr, "/a"); G.n = 3; int k = in_pick(0, 2);
  for(int i = 0; i < 3; i++) if(i == k) g_arg_any(&G.a[i], T); else g_arg_any(&G.a[i], i == k + 1 ? "is" : "h");
  unsigned char ref[256], e[64]; int n = g_enc_msg(ref, &G); char *w = g_heap(ref, n);
  t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, w); t_osc_atom_s *x = NULL; osc_message_s_getArg(s, k, &x); int off = osc_atom_s_getData(x) - w;
  g_arg b; b.tt = G.a[k].tt; if(b.tt == 's'){ b.bits = 0; b.len = G.a[k].len; for(int i = 0; i < b.len; i++){ b.b[i] = in_u8(); ASSUME(b.b[i] != 0); } b.b[b.len] = 0; } else g_value(&b);
  put(x, &b); int m = g_enc_arg(e, &b);
  CHECK(osc_atom_s_getTypetag(x) == b.tt && g_eq_s(x, &b), "value after setting in place");
  CHECK(vh_same(w + off, e, m), "new bytes"); CHECK(vh_same(w, ref, off) && vh_same(w + off + m, ref + off + m, n - off - m), "all other bytes unchanged");
  osc_atom_s_free(x); osc_message_s_free(s); free(w); REACH("done");
}
/* setting an atom without data allocates exactly what it needs */
void h_setalloc(void){
  g_arg b; g_arg_any(&b, "ifhdIHcCuUtTFN"); t_osc_atom_s *x = osc_atom_s_alloc('N', NULL); put(x, &b); CHECK(g_eq_s(x, &b), "value after setting a fresh atom");
  g_arg c; g_arg_any(&c, "TFN"); char *d = osc_atom_s_getData(x); put(x, &c); CHECK(osc_atom_s_getTypetag(x) == c.tt && osc_atom_s_getData(x) == d, "typetag-only values leave the data alone"); if(d) free(d); osc_atom_s_free(x); REACH("done");
}
void h_negate(void){
  g_arg a; g_arg_any(&a, g_types_num); g_arg e = a; int n;
  switch(a.tt){ case 'f': e.bits = f2u(-u2f((uint32_t)a.bits)); break; case 'd': e.bits = d2u(-u2d(a.bits)); break; case 'h': case 'H': e.bits = -a.bits; break; case 'i': case 'I': e.bits = (uint32_t)-(uint32_t)a.bits; break; case 'u': case 'U': e.bits = (uint16_t)-a.bits; break; case 'c': case 'C': e.bits = (uint8_t)-a.bits; break; }
  switch(a.tt){ case 'H': e.tt = 'h'; break; case 'I': e.tt = 'i'; break; case 'U': e.tt = 'u'; break; case 'C': e.tt = 'c'; break; }
  unsigned char ref[16]; n = g_enc_arg(ref, &a); char *w = g_heap(ref, n);
  t_osc_atom_s *s = osc_atom_s_alloc(a.tt, w); osc_atom_s_negate(s); CHECK(g_eq_s(s, &e), "negated serialised value");
  t_osc_atom_u *u = osc_atom_u_alloc(); g_set(u, &a); osc_atom_u_negate(u); CHECK(g_eq_u(u, &e), "negated value");
  osc_atom_s_free(s); osc_atom_u_free(u); free(w); REACH("done");
}
/* W06 */
void h_byteorder(void){
  uint32_t a = in_u32(); uint64_t b = in_u64(); uint16_t c = in_u16(); unsigned char p[8], q[16];
  uint32_t x = hton32(a); memcpy(p, &x, 4); CHECK(rd32(p) == a, "hton32 puts the most significant byte first"); CHECK((uint32_t)ntoh32(x) == a, "ntoh32 inverts hton32");
  uint64_t y = hton64(b); memcpy(p, &y, 8); CHECK(rd64(p) == b, "hton64 puts the most significant byte first"); CHECK((uint64_t)ntoh64(y) == b, "ntoh64 inverts hton64");
  uint16_t z = hton16(c); memcpy(p, &z, 2); CHECK((p[0] << 8 | p[1]) == c, "hton16 puts the most significant byte first"); CHECK((uint16_t)ntoh16(z) == c, "ntoh16 inverts hton16");
  float f = u2f(a); uint32_t g = htonf32(f); memcpy(p, &g, 4); CHECK(rd32(p) == a, "htonf32"); double d = u2d(b); uint64_t h = htonf64(d); memcpy(p, &h, 8); CHECK(rd64(p) == b, "htonf64");
  uint128_t w = { b, in_u64() }, v = hton128(w); memcpy(q, &v, 16); CHECK(rd64(q) == w.l2 && rd64(q + 8) == w.l1, "hton128 puts the most significant byte first"); v = ntoh128(v); CHECK(v.l1 == w.l1 && v.l2 == w.l2, "ntoh128 inverts hton128");
  REACH("done");
}
/* encoding and decoding the byte order by type */
void h_encode(void){
  static const char K[] = "ifhdIHcCuUTFNtsb."; int k = in_pick(0, 16); static g_arg a; unsigned char ref[80]; memset(ref, 0, sizeof ref); a.tt = K[k]; if(a.tt == '.') g_nested(&a); else g_value(&a); int n = g_enc_arg(ref, &a), num = k < 10; CHECK(!osc_mem_shouldByteswap(a.tt) == !num, "numbers have a byte order, other values have none"); unsigned char nat[80]; memcpy(nat, ref, n);
  if(num && n == 4){ uint32_t x = rd32(ref); memcpy(nat, &x, 4); } else if(num){ uint64_t x = rd64(ref); memcpy(nat, &x, 8); }
  char *w = g_heap(num ? nat : ref, n), *o = malloc(n ? n : 1), *q = malloc(n ? n : 1), *o2 = o; CHECK(osc_mem_encodeByteorder(a.tt, w, &o) == OSC_ERR_NONE && o == o2 && vh_same(o, ref, n), "encoded value"); CHECK(osc_mem_decodeByteorder(a.tt, o, &q) == OSC_ERR_NONE && vh_same(q, nat, n), "decoded value"); free(w); free(o); free(q); REACH("done");
}
void h_padding(void){
  uint32_t n = in_u32(); ASSUME(n < 0x7ffffff0u);
  uint64_t p = osc_util_getPaddingForNBytes(n); CHECK((p & 3) == 0 && p > n && p - n <= 4, "padding of a string of n bytes");
  uint64_t b = osc_util_getBlobLength(n); CHECK((b & 3) == 0 && b >= (uint64_t)n + 4 && b - n - 4 < 4, "length of a blob of n bytes");
  char s[12]; int k = g_str((unsigned char *)s, 9); uint64_t q = osc_util_getPaddedStringLen(s); CHECK(q == (uint64_t)pad4(k + 1) && osc_strfmt_strlenPadded(s) == pad4(k + 1), "padded length of a string");
  char *d = NULL; CHECK(osc_util_strdup(&d, s) == k && g_str_eq(d, s), "string copy"); free(d);
  REACH("done");
}
void h_sizeof(void){
  uint8_t t = in_u8(); g_arg a; unsigned char ref[64]; memset(ref, 0, sizeof ref); int n;
  static const char K[] = "ifhdIHcCuUTFNtsb."; int k = -1; for(int i = 0; K[i]; i++) if(t == (uint8_t)K[i]) k = i;
  if(k < 0){ char d[4] = {0,0,0,0}; (void)osc_sizeof(t, d); REACH("unknown"); return; }
  a.tt = K[k]; if(a.tt == '.') { g_nested(&a); } else g_value(&a); n = g_enc_arg(ref, &a); char *w = malloc(n); memcpy(w, ref, n);
  CHECK((int)osc_sizeof(a.tt, w) == n, "size of an argument by its type"); free(w); REACH("known");
}
VH_MAIN
