/* Harness interface.  The same harness source is (a) compiled to LLVM bitcode together with the
   library and executed symbolically by vsym, where every vh_in*() is an unconstrained bit-vector,
   and (b) compiled natively with sanitizers and linked with vhrt.c to replay a solver model. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <math.h>
uint8_t  vh_in8(void);
uint16_t vh_in16(void);
uint32_t vh_in32(void);
uint64_t vh_in64(void);
void vh_assume(int c);
void vh_check(int c, const char *msg);
void vh_reach(const char *msg);
long vh_live(void);                       /* number of live heap blocks */
int  vh_is_symbolic(uint64_t v);          /* 0 in a native replay */
uint64_t vh_concretize(uint64_t v);       /* enumerate the feasible values of v (identity natively) */
#define ASSUME(c) vh_assume(!!(c))
#define CHECK(c, msg) vh_check(!!(c), msg)
#define REACH(msg) vh_reach(msg)
#define in_u8 vh_in8
#define in_u16 vh_in16
#define in_u32 vh_in32
#define in_u64 vh_in64
/* arbitrary value in lo..hi (at most 256 values) */
static inline int in_range(int lo, int hi){ uint8_t v = vh_in8(); ASSUME(v <= hi - lo); return lo + v; }
/* as in_range, but every value is explored on its own path */
static inline int in_pick(int lo, int hi){ uint8_t v = vh_in8(); ASSUME(v <= hi - lo); return lo + (int)vh_concretize(v); }
static inline int in_bool(void){ uint8_t v = vh_in8(); ASSUME(v <= 1); return v; }
static inline float  u2f(uint32_t u){ float f; memcpy(&f, &u, 4); return f; }
static inline double u2d(uint64_t u){ double f; memcpy(&f, &u, 8); return f; }
static inline uint32_t f2u(float f){ uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t d2u(double f){ uint64_t u; memcpy(&u, &f, 8); return u; }
/* comparison without control flow */
static inline int vh_same(const void *a, const void *b, long n){ const unsigned char *x = a, *y = b; unsigned d = 0; for(long i = 0; i < n; i++) d |= (unsigned)(x[i] ^ y[i]); return d == 0; }
static inline uint32_t rd32(const void *p){ const unsigned char *b = p; return (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3]; }
static inline uint64_t rd64(const void *p){ return (uint64_t)rd32(p) << 32 | rd32((const char *)p + 4); }
static inline void wr32(void *p, uint32_t v){ unsigned char *b = p; b[0] = v >> 24; b[1] = v >> 16; b[2] = v >> 8; b[3] = v; }
static inline void wr64(void *p, uint64_t v){ wr32(p, v >> 32); wr32((char *)p + 4, (uint32_t)v); }
#ifndef ENTRY
#define ENTRY harness
#endif
#define VH_MAIN int main(void){ ENTRY(); REACH("VH_END"); return 0; }
#endif
