/* native replay runtime */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
static unsigned char ws[100000]; static uint64_t vs[100000]; static int n, pos; static FILE *rf;
static volatile long live;
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void hm(const volatile void *p, size_t s){ if(p) live++; }
static void hf(const volatile void *p){ if(p) live--; }
#define HOOKS 1
#endif
#endif
static char obuf[4096];
static void fin(void){ }
__attribute__((constructor(101))) static void init(void){
  const char *f = getenv("VH_INPUTS"); const char *r = getenv("VH_REACH");
  if(f){ FILE *h = fopen(f, "r"); unsigned w; unsigned long long v; while(h && n < 100000 && fscanf(h, "%u %llu", &w, &v) == 2){ ws[n] = w; vs[n++] = v; } if(h) fclose(h); }
  if(r){ rf = fopen(r, "w"); }
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
#ifdef HOOKS
  __sanitizer_install_malloc_and_free_hooks(hm, hf);
#endif
  atexit(fin);
}
static uint64_t next(unsigned w){ if(pos >= n){ return 0; } if(ws[pos] != w){ fprintf(stderr, "REPLAY input %d width %u expected %u\n", pos, ws[pos], w); _exit(78); } return vs[pos++]; }
uint8_t vh_in8(void){ return next(8); }
uint16_t vh_in16(void){ return next(16); }
uint32_t vh_in32(void){ return next(32); }
uint64_t vh_in64(void){ return next(64); }
void vh_assume(int c){ if(!c) _exit(77); }
void vh_check(int c, const char *m){ if(!c){ char b[512]; int k = snprintf(b, sizeof b, "CHECK FAILED: %s\n", m); if(write(2, b, k)){} if(rf) fclose(rf); _exit(1); } }
void vh_reach(const char *m){ if(rf){ char b[256]; int k = snprintf(b, sizeof b, "%s\n", m); if(write(fileno(rf), b, k)){} } }
long vh_live(void){ return live; }
int vh_is_symbolic(uint64_t v){ return 0; }
uint64_t vh_concretize(uint64_t v){ return v; }
