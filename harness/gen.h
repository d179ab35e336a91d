/* shared generators and an independent reference encoder for the OSC wire format */
#ifndef GEN_H
#define GEN_H
#include "vh.h"
#include "osc.h"
#include "osc_mem.h"
#include "osc_util.h"
#include "osc_error.h"
#include "osc_match.h"
#include "osc_timetag.h"
#include "osc_typetag.h"
#include "osc_strfmt.h"
#include "osc_array.h"
#include "osc_atom_s.h"
#include "osc_atom_u.h"
#include "osc_atom_array_s.h"
#include "osc_atom_array_u.h"
#include "osc_message_s.h"
#include "osc_message_u.h"
#include "osc_message_iterator_s.h"
#include "osc_message_iterator_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_u.h"
#include "osc_bundle_iterator_s.h"
#include "osc_bundle_iterator_u.h"
#ifndef ADDRMAX
#define ADDRMAX 5
#endif
#ifndef STRMAX
#define STRMAX 5
#endif
#ifndef G_MAXARG
#define G_MAXARG 6
#endif
#ifndef G_PAY
#define G_PAY 64
#endif
typedef struct { char tt; uint64_t bits; int len; unsigned char b[G_PAY]; } g_arg;   /* b: string / blob payload / nested bundle bytes */
#ifndef G_ADDR
#define G_ADDR 32
#endif
typedef struct { char addr[G_ADDR]; int alen; int n; g_arg a[G_MAXARG]; } g_msg;
static int pad4(int n){ return (n + 3) & ~3; }
/* an address: '/' followed by len-1 arbitrary address characters (no NUL) */
static int g_addr_chars(char *a, int lo, int hi, int patterns){
  int n = in_pick(lo, hi); a[0] = '/';
  for(int i = 1; i < n; i++){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127)); if(!patterns) ASSUME((c != '*') & (c != '?') & (c != '[') & (c != ']') & (c != '{') & (c != '}') & (c != ',') & (c != '#')); a[i] = c; }
  a[n] = 0; return n;
}
static int g_str(unsigned char *s, int hi){ int n = in_pick(0, hi); for(int i = 0; i < n; i++){ uint8_t c = in_u8(); ASSUME(c != 0); s[i] = c; } s[n] = 0; return n; }
static const char g_types_num[] = "ifhdIHcCuU";
static const char g_types_all[] = "ifhdIHcCuUTFNstb";
static void g_value(g_arg *a){
  a->bits = 0; a->len = 0;
  switch(a->tt){
  case 'i': case 'I': case 'f': a->bits = in_u32(); break;
  case 'h': case 'H': case 'd': case 't': a->bits = in_u64(); break;
  case 'c': case 'C': a->bits = in_u8(); break;
  case 'u': case 'U': a->bits = in_u16(); break;
  case 's': a->len = g_str(a->b, STRMAX); break;
  case 'b': a->len = in_pick(0, STRMAX); for(int i = 0; i < a->len; i++) a->b[i] = in_u8(); break;
  }
}
static void g_arg_any(g_arg *a, const char *types){ int k = in_pick(0, (int)strlen(types) - 1); a->tt = types[k]; g_value(a); }
static int32_t g_as32(const g_arg *a){ /* value as carried in a 4-byte integer slot */
  switch(a->tt){ case 'c': return (int8_t)a->bits; case 'u': return (int16_t)a->bits; default: return (int32_t)a->bits; } }
/* reference wire encoding of one argument; returns the number of bytes */
static int g_enc_arg(unsigned char *p, const g_arg *a){
  int n;
  switch(a->tt){
  case 'i': case 'I': case 'f': case 'c': case 'C': case 'u': case 'U': wr32(p, (uint32_t)g_as32(a)); return 4;
  case 'h': case 'H': case 'd': case 't': wr64(p, a->bits); return 8;
  case 's': n = pad4(a->len + 1); memset(p, 0, n); memcpy(p, a->b, a->len); return n;
  case 'b': n = 4 + pad4(a->len); memset(p, 0, n); wr32(p, a->len); memcpy(p + 4, a->b, a->len); return n;
  case '.': wr32(p, a->len); memcpy(p + 4, a->b, a->len); return 4 + a->len;
  default: return 0; }
}
/* reference wire encoding of a message, with its size prefix; returns the number of bytes */
static int g_enc_msg(unsigned char *p, const g_msg *m){
  int o = 4, n = pad4(m->alen + 1); memset(p + o, 0, n); memcpy(p + o, m->addr, m->alen); o += n;
  n = pad4(m->n + 2); memset(p + o, 0, n); p[o] = ','; for(int i = 0; i < m->n; i++) p[o + 1 + i] = m->a[i].tt; o += n;
  for(int i = 0; i < m->n; i++) o += g_enc_arg(p + o, &m->a[i]);
  wr32(p, o - 4); return o;
}
static int g_enc_header(unsigned char *p, uint64_t tt){ memcpy(p, "#bundle\0", 8); wr64(p + 8, tt); return 16; }
static t_osc_timetag g_tt(uint64_t b){ t_osc_timetag t; t.sec = (uint32_t)(b >> 32); t.frac_sec = (uint32_t)b; return t; }
static uint64_t g_ttbits(t_osc_timetag t){ return (uint64_t)t.sec << 32 | t.frac_sec; }
/* append the argument to an unserialised message through the public API */
static t_osc_atom_u *g_append(t_osc_msg_u *m, g_arg *a){
  switch(a->tt){
  case 'i': return osc_message_u_appendInt32(m, (int32_t)a->bits);
  case 'I': return osc_message_u_appendUInt32(m, (uint32_t)a->bits);
  case 'f': return osc_message_u_appendFloat(m, u2f((uint32_t)a->bits));
  case 'h': return osc_message_u_appendInt64(m, (int64_t)a->bits);
  case 'H': return osc_message_u_appendUInt64(m, a->bits);
  case 'd': return osc_message_u_appendDouble(m, u2d(a->bits));
  case 'c': return osc_message_u_appendInt8(m, (int8_t)a->bits);
  case 'C': return osc_message_u_appendUInt8(m, (uint8_t)a->bits);
  case 'u': return osc_message_u_appendInt16(m, (int16_t)a->bits);
  case 'U': return osc_message_u_appendUInt16(m, (uint16_t)a->bits);
  case 'T': return osc_message_u_appendTrue(m);
  case 'F': return osc_message_u_appendFalse(m);
  case 'N': return osc_message_u_appendNil(m);
  case 's': return osc_message_u_appendString(m, (char *)a->b);
  case 't': return osc_message_u_appendTimetag(m, g_tt(a->bits));
  case 'b': { unsigned char blob[G_PAY + 8]; memset(blob, 0, sizeof blob); wr32(blob, a->len); memcpy(blob + 4, a->b, a->len); return osc_message_u_appendBlob(m, (char *)blob); }
  case '.': return osc_message_u_appendBndl_s(m, a->len, (char *)a->b);
  }
  return NULL;
}
static void g_set(t_osc_atom_u *x, g_arg *a){
  switch(a->tt){
  case 'i': osc_atom_u_setInt32(x, (int32_t)a->bits); break;
  case 'I': osc_atom_u_setUInt32(x, (uint32_t)a->bits); break;
  case 'f': osc_atom_u_setFloat(x, u2f((uint32_t)a->bits)); break;
  case 'h': osc_atom_u_setInt64(x, (int64_t)a->bits); break;
  case 'H': osc_atom_u_setUInt64(x, a->bits); break;
  case 'd': osc_atom_u_setDouble(x, u2d(a->bits)); break;
  case 'c': osc_atom_u_setInt8(x, (int8_t)a->bits); break;
  case 'C': osc_atom_u_setUInt8(x, (uint8_t)a->bits); break;
  case 'u': osc_atom_u_setInt16(x, (int16_t)a->bits); break;
  case 'U': osc_atom_u_setUInt16(x, (uint16_t)a->bits); break;
  case 'T': osc_atom_u_setTrue(x); break;
  case 'F': osc_atom_u_setFalse(x); break;
  case 'N': osc_atom_u_setNil(x); break;
  case 's': osc_atom_u_setString(x, (char *)a->b); break;
  case 't': osc_atom_u_setTimetag(x, g_tt(a->bits)); break;
  case 'b': { unsigned char blob[G_PAY + 8]; memset(blob, 0, sizeof blob); wr32(blob, a->len); memcpy(blob + 4, a->b, a->len); osc_atom_u_setBlob(x, (char *)blob); break; }
  case '.': osc_atom_u_setBndl_s(x, a->len, (char *)a->b); break;
  }
}
static t_osc_msg_u *g_build(g_msg *m){ t_osc_msg_u *u = osc_message_u_alloc(); osc_message_u_setAddress(u, m->addr); for(int i = 0; i < m->n; i++) g_append(u, &m->a[i]); return u; }
/* does the unserialised atom carry exactly this argument? (no control flow on the values) */
static int g_eq_u(t_osc_atom_u *x, const g_arg *a){
  if(osc_atom_u_getTypetag(x) != a->tt) return 0;
  switch(a->tt){
  case 'i': return (uint32_t)osc_atom_u_getInt32(x) == (uint32_t)a->bits;
  case 'I': return osc_atom_u_getUInt32(x) == (uint32_t)a->bits;
  case 'f': return f2u(osc_atom_u_getFloat(x)) == (uint32_t)a->bits;
  case 'h': return (uint64_t)osc_atom_u_getInt64(x) == a->bits;
  case 'H': return osc_atom_u_getUInt64(x) == a->bits;
  case 'd': return d2u(osc_atom_u_getDouble(x)) == a->bits;
  case 'c': return (uint8_t)osc_atom_u_getInt8(x) == (uint8_t)a->bits;
  case 'C': return osc_atom_u_getUInt8(x) == (uint8_t)a->bits;
  case 'u': return (uint16_t)osc_atom_u_getInt16(x) == (uint16_t)a->bits;
  case 'U': return osc_atom_u_getUInt16(x) == (uint16_t)a->bits;
  case 't': return g_ttbits(osc_atom_u_getTimetag(x)) == a->bits;
  case 's': { char *s = osc_atom_u_getStringPtr(x); return s && (int)strlen(s) == a->len && vh_same(s, a->b, a->len); }
  case 'b': { char *b = osc_atom_u_getBlob(x); return b && rd32(b) == (uint32_t)a->len && vh_same(b + 4, a->b, a->len); }
  case '.': { t_osc_bndl_s *s = osc_bundle_u_serialize(osc_atom_u_getBndl(x)); int ok = osc_bundle_s_getLen(s) == a->len && vh_same(osc_bundle_s_getPtr(s), a->b, a->len); osc_bundle_s_deepFree(s); return ok; }
  }
  return 1;
}
static int g_eq_s(t_osc_atom_s *x, const g_arg *a){
  if(osc_atom_s_getTypetag(x) != a->tt) return 0;
  switch(a->tt){
  case 'i': return (uint32_t)osc_atom_s_getInt32(x) == (uint32_t)a->bits;
  case 'I': return osc_atom_s_getUInt32(x) == (uint32_t)a->bits;
  case 'f': return f2u(osc_atom_s_getFloat(x)) == (uint32_t)a->bits;
  case 'h': return (uint64_t)osc_atom_s_getInt64(x) == a->bits;
  case 'H': return osc_atom_s_getUInt64(x) == a->bits;
  case 'd': return d2u(osc_atom_s_getDouble(x)) == a->bits;
  case 'c': return (uint8_t)osc_atom_s_getInt8(x) == (uint8_t)a->bits;
  case 'C': return osc_atom_s_getUInt8(x) == (uint8_t)a->bits;
  case 'u': return (uint16_t)osc_atom_s_getInt16(x) == (uint16_t)a->bits;
  case 'U': return osc_atom_s_getUInt16(x) == (uint16_t)a->bits;
  case 't': return g_ttbits(osc_atom_s_getTimetag(x)) == a->bits;
  case 's': { char *s = osc_atom_s_getData(x); return s && (int)strlen(s) == a->len && vh_same(s, a->b, a->len); }
  case 'b': { char *b = osc_atom_s_getBlob(x); return b && rd32(b) == (uint32_t)a->len && vh_same(b + 4, a->b, a->len); }
  case '.': { char *b = osc_atom_s_getData(x); return b && rd32(b) == (uint32_t)a->len && vh_same(b + 4, a->b, a->len); }
  }
  return 1;
}
/* a small well-formed bundle of concrete shape used as a nested payload */
static int g_small_bundle(unsigned char *p){ int o = g_enc_header(p, 0); g_msg *m = malloc(sizeof *m); memset(m, 0, sizeof *m); strcpy(m->addr, "/n"); m->alen = 2; m->n = 1; m->a[0].tt = 'i'; m->a[0].bits = in_u32(); o += g_enc_msg(p + o, m); free(m); return o; }
#endif
#ifndef GEN2_H
#define GEN2_H
#ifndef G_MAXMSG
#define G_MAXMSG 3
#endif
typedef struct { uint64_t tt; int n; g_msg m[G_MAXMSG]; } g_bndl;
static int g_enc_bndl(unsigned char *p, const g_bndl *b){ int o = g_enc_header(p, b->tt); for(int i = 0; i < b->n; i++) o += g_enc_msg(p + o, &b->m[i]); return o; }
static t_osc_bndl_u *g_build_bndl(g_bndl *b){ t_osc_bndl_u *u = osc_bundle_u_alloc(); for(int i = 0; i < b->n; i++) osc_bundle_u_addMsg(u, g_build(&b->m[i])); return u; }
static char *g_heap(const void *p, int n){ char *x = malloc(n ? n : 1); memcpy(x, p, n); return x; }
/* message with fixed address and one symbolic int argument */
static void g_simple(g_msg *m, const char *addr, int nargs){ strcpy(m->addr, addr); m->alen = strlen(addr); m->n = nargs; for(int i = 0; i < nargs; i++){ m->a[i].tt = 'i'; m->a[i].bits = in_u32(); m->a[i].len = 0; } }
static void g_msg_any(g_msg *m, int nargs, const char *types, int amax, int patterns){ m->alen = g_addr_chars(m->addr, 1, amax, patterns); m->n = in_pick(0, nargs); for(int i = 0; i < m->n; i++) g_arg_any(&m->a[i], types); }
static void g_nested(g_arg *a){ a->tt = '.'; a->bits = 0; a->len = g_small_bundle(a->b); }
static int g_str_eq(const char *a, const char *b){ int n = strlen(b); return (int)strlen(a) == n && vh_same(a, b, n); }
/* offsets of the messages of an encoded bundle */
static int g_walk(const unsigned char *b, int len, int *off, int max){ int o = 16, k = 0; while(o < len && k < max){ off[k++] = o; o += 4 + (int)rd32(b + o); } CHECK(o == len, "message sizes tile the bundle exactly"); return k; }
#endif
