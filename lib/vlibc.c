/* C library models compiled to bitcode and executed together with the library.
   Replays run against the real C library, and sampled paths are cross-checked natively. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include <sys/time.h>
uint64_t vh_concretize(uint64_t); int vh_is_symbolic(uint64_t); int vh_fmt_double(char *, const char *, double); double vh_strtod(const char *, long *);
uint64_t vh_in64(void); void vh_assume(int);
static int vl_errno; int *__errno_location(void){ return &vl_errno; }
size_t strlen(const char *s){ const char *p = s; while(*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n){ size_t i = 0; while(i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b){ const unsigned char *x = (const void *)a, *y = (const void *)b; while(*x == *y){ if(!*x) return 0; x++; y++; } return (int)*x - (int)*y; }
int strncmp(const char *a, const char *b, size_t n){ const unsigned char *x = (const void *)a, *y = (const void *)b; while(n--){ if(*x != *y) return (int)*x - (int)*y; if(!*x) return 0; x++; y++; } return 0; }
static int lc(int c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b){ for(;; a++, b++){ int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if(x != y) return x - y; if(!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n){ for(; n--; a++, b++){ int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if(x != y) return x - y; if(!x) return 0; } return 0; }
char *strcpy(char *d, const char *s){ char *r = d; while((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n){ size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s){ strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n){ char *p = d + strlen(d); while(n-- && *s) *p++ = *s++; *p = 0; return d; }
char *strchr(const char *s, int c){ for(;; s++){ if(*s == (char)c) return (char *)s; if(!*s) return 0; } }
char *strrchr(const char *s, int c){ const char *r = 0; for(;; s++){ if(*s == (char)c) r = s; if(!*s) return (char *)r; } }
char *strstr(const char *h, const char *n){ size_t l = strlen(n); if(!l) return (char *)h; for(; *h; h++) if(!strncmp(h, n, l)) return (char *)h; return 0; }
size_t strspn(const char *s, const char *a){ size_t i = 0; while(s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *a){ size_t i = 0; while(s[i] && !strchr(a, s[i])) i++; return i; }
char *strpbrk(const char *s, const char *a){ s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv){ if(!s) s = *sv; s += strspn(s, d); if(!*s){ *sv = s; return 0; } char *t = s; s += strcspn(s, d); if(*s) *s++ = 0; *sv = s; return t; }
char *strtok(char *s, const char *d){ static char *sv; return strtok_r(s, d, &sv); }
char *strdup(const char *s){ size_t n = strlen(s) + 1; char *p = malloc(n); if(p) memcpy(p, s, n); return p; }
int memcmp(const void *a, const void *b, size_t n){ const unsigned char *x = a, *y = b; for(size_t i = 0; i < n; i++) if(x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
void *memchr(const void *a, int c, size_t n){ const unsigned char *x = a; for(size_t i = 0; i < n; i++) if(x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
char *__xpg_basename(char *p){ static char dot[2] = "."; if(!p || !*p) return dot; size_t n = strlen(p); while(n > 1 && p[n-1] == '/') p[--n] = 0; char *r = strrchr(p, '/'); return r && r[1] ? r + 1 : p; }
int abs(int a){ return a < 0 ? -a : a; }
long labs(long a){ return a < 0 ? -a : a; }
int toupper(int c){ return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c){ return lc(c); }
int isspace(int c){ return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c){ return c >= '0' && c <= '9'; }
int isalpha(int c){ return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c){ return isalpha(c) || isdigit(c); }
int isupper(int c){ return c >= 'A' && c <= 'Z'; }
int islower(int c){ return c >= 'a' && c <= 'z'; }
int isprint(int c){ return c >= 32 && c < 127; }
int ispunct(int c){ return c > 32 && c < 127 && !isalnum(c); }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)){ char *a = b; char t[256]; 
  for(size_t i = 1; i < n; i++) for(size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--){ memcpy(t, a + j * sz, sz); memcpy(a + j * sz, a + (j - 1) * sz, sz); memcpy(a + (j - 1) * sz, t, sz); } }
static unsigned long long sto(const char *s, char **e, int base, int *neg, int *ovf){
  const char *p = s; while(isspace((unsigned char)*p)) p++; *neg = 0; *ovf = 0; if(*p == '-'){ *neg = 1; p++; } else if(*p == '+') p++;
  if((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && ((p[2] >= '0' && p[2] <= '9') || (lc(p[2]) >= 'a' && lc(p[2]) <= 'f'))){ p += 2; base = 16; } else if(base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0; for(;; p++){ int d; if(*p >= '0' && *p <= '9') d = *p - '0'; else if(lc((unsigned char)*p) >= 'a' && lc((unsigned char)*p) <= 'z') d = lc((unsigned char)*p) - 'a' + 10; else break; if(d >= base) break; any = 1; if(v > (ULLONG_MAX - d) / base) *ovf = 1; v = v * base + d; }
  if(e) *e = (char *)(any ? p : s); return v; }
long long strtoll(const char *s, char **e, int b){ int n, o; unsigned long long v = sto(s, e, b, &n, &o); if(n){ if(o || v > (unsigned long long)LLONG_MAX + 1){ errno = ERANGE; return LLONG_MIN; } return (long long)(0 - v); } if(o || v > LLONG_MAX){ errno = ERANGE; return LLONG_MAX; } return v; }
unsigned long long strtoull(const char *s, char **e, int b){ int n, o; unsigned long long v = sto(s, e, b, &n, &o); if(o){ errno = ERANGE; return ULLONG_MAX; } return n ? 0 - v : v; }
long strtol(const char *s, char **e, int b){ return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b){ return strtoull(s, e, b); }
int atoi(const char *s){ return (int)strtol(s, 0, 10); }
long atol(const char *s){ return strtol(s, 0, 10); }
long long atoll(const char *s){ return strtoll(s, 0, 10); }
double strtod(const char *s, char **e){ long c; double d = vh_strtod(s, &c); if(e) *e = (char *)s + c; return d; }
float strtof(const char *s, char **e){ return (float)strtod(s, e); }
double atof(const char *s){ return strtod(s, 0); }
__attribute__((weak)) int gettimeofday(struct timeval *tv, void *tz){ if(tv){ tv->tv_sec = 1600000000; tv->tv_usec = 123456; } return 0; }
#ifdef stdin
#undef stdin
#undef stdout
#undef stderr
#endif
FILE *stdin, *stdout, *stderr;
int printf(const char *f, ...){ return 0; }
int fprintf(FILE *h, const char *f, ...){ return 0; }
int vprintf(const char *f, va_list a){ return 0; }
int puts(const char *s){ return 0; }
int putchar(int c){ return c; }
int fputc(int c, FILE *h){ return c; }
int fputs(const char *s, FILE *h){ return 0; }
int fflush(FILE *h){ return 0; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *h){ return n; }
size_t fread(void *p, size_t s, size_t n, FILE *h){ return 0; }
int getc(FILE *h){ return -1; }
int ferror(FILE *h){ return 0; }
void clearerr(FILE *h){ }
int fileno(FILE *h){ return 0; }
int isatty(int f){ return 0; }
static void outc(char *d, size_t n, size_t *pos, char c){ if(d && *pos + 1 < n) d[*pos] = c; (*pos)++; }
static const char dg[] = "0123456789abcdef", DG[] = "0123456789ABCDEF";
int vsnprintf(char *d, size_t n, const char *f, va_list ap){
  size_t pos = 0;
  for(; *f; f++){
    if(*f != '%'){ outc(d, n, &pos, *f); continue; }
    const char *st = f++; int minus = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for(;; f++){ if(*f == '-') minus = 1; else if(*f == '0') zero = 1; else if(*f == '+') plus = 1; else if(*f == ' ') space = 1; else if(*f == '#') alt = 1; else break; }
    if(*f == '*'){ width = va_arg(ap, int); if(width < 0){ minus = 1; width = -width; } f++; } else while(*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if(*f == '.'){ f++; prec = 0; if(*f == '*'){ prec = va_arg(ap, int); f++; } else while(*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for(;; f++){ if(*f == 'l') lng++; else if(*f == 'h') lng--; else if(*f == 'j' || *f == 'z' || *f == 't') lng = 2; else if(*f == 'L') ; else break; }
    char tmp[400]; int tl = 0; const char *src = tmp;
    switch(*f){
    case '%': tmp[0] = '%'; tl = 1; break;
    case 'c': tmp[0] = (char)va_arg(ap, int); tl = 1; break;
    case 's': src = va_arg(ap, const char *); if(!src) src = "(null)"; while((prec < 0 || tl < prec) && src[tl]) tl++; break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      uint64_t v; int neg = 0; int base = *f == 'o' ? 8 : (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10; const char *ds = *f == 'X' ? DG : dg;
      if(*f == 'p'){ v = va_arg(ap, uint64_t); alt = 1; }
      else if(*f == 'd' || *f == 'i'){ int64_t s; if(lng >= 1) s = va_arg(ap, int64_t); else { int q = va_arg(ap, int); s = lng == -1 ? (short)q : lng <= -2 ? (signed char)q : q; } if(s < 0){ neg = 1; v = 0 - (uint64_t)s; } else v = s; }
      else { if(lng >= 1) v = va_arg(ap, uint64_t); else { unsigned q = va_arg(ap, unsigned); v = lng == -1 ? (unsigned short)q : lng <= -2 ? (unsigned char)q : q; } }
      char r[32]; int k = 0; uint64_t t = v; if(!(prec == 0 && v == 0)) do { r[k++] = base == 10 ? (char)('0' + t % 10) : ds[t % base]; t /= base; } while(t);
      while(k < prec && k < 31) r[k++] = '0';
      if(neg) tmp[tl++] = '-'; else if(plus && base == 10 && *f != 'u') tmp[tl++] = '+'; else if(space && base == 10 && *f != 'u') tmp[tl++] = ' ';
      if(alt && base == 16 && (v || *f == 'p')){ tmp[tl++] = '0'; tmp[tl++] = *f == 'X' ? 'X' : 'x'; } else if(alt && base == 8 && (k == 0 || r[k-1] != '0')) r[k++] = '0';
      if(zero && !minus && prec < 0) while(tl + k < width && k < 31) r[k++] = '0';
      while(k) tmp[tl++] = r[--k];
      break; }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
      double v = va_arg(ap, double); char fm[16]; int i = 0; fm[i++] = '%'; if(minus) fm[i++] = '-'; if(zero) fm[i++] = '0'; if(plus) fm[i++] = '+'; if(space) fm[i++] = ' '; if(alt) fm[i++] = '#';
      if(prec >= 0){ fm[i++] = '.'; if(prec >= 10) fm[i++] = '0' + prec / 10; fm[i++] = '0' + prec % 10; } fm[i++] = *f; fm[i] = 0;
      tl = vh_fmt_double(tmp, fm, v); if(tl < 0){ uint64_t u; memcpy(&u, &v, 8); u = vh_concretize(u); memcpy(&v, &u, 8); tl = vh_fmt_double(tmp, fm, v); }
      break; }
    case 'n': break;
    default: while(st <= f && *st) outc(d, n, &pos, *st++); if(!*f) f--; continue;
    }
    if(!minus) for(int i = tl; i < width; i++) outc(d, n, &pos, ' ');
    for(int i = 0; i < tl; i++) outc(d, n, &pos, src[i]);
    if(minus) for(int i = tl; i < width; i++) outc(d, n, &pos, ' ');
  }
  if(d && n > 0) d[pos < n ? pos : n - 1] = 0;
  return (int)pos;
}
int snprintf(char *d, size_t n, const char *f, ...){ va_list a; va_start(a, f); int r = vsnprintf(d, n, f, a); va_end(a); return r; }
int vsprintf(char *d, const char *f, va_list a){ return vsnprintf(d, (size_t)1 << 40, f, a); }
int sprintf(char *d, const char *f, ...){ va_list a; va_start(a, f); int r = vsnprintf(d, (size_t)1 << 40, f, a); va_end(a); return r; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn){ abort(); }
/* sscanf: white space, literals, %d %i %u %x %ld %lf %f %s %c %[..] with * and width */
int vsscanf(const char *s, const char *f, va_list ap){
  const char *s0 = s; int n = 0;
  for(; *f; f++){
    if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*s)) s++; continue; }
    if(*f != '%'){ if(*s != *f) return *s || n ? n : -1; s++; continue; }
    f++; int sup = 0, w = 0, lng = 0; if(*f == '*'){ sup = 1; f++; } while(*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; for(;; f++){ if(*f == 'l') lng++; else if(*f == 'h') lng--; else break; }
    if(*f == '%'){ if(*s != '%') return n; s++; continue; }
    if(*f != 'c' && *f != '[' && *f != 'n') while(isspace((unsigned char)*s)) s++;
    if(*f != 'n' && !*s) return n ? n : -1;
    char t[64]; int k = 0, lim = w && w < 63 ? w : 63; char *e;
    switch(*f){
    case 'd': case 'i': case 'u': case 'x': { while(k < lim && (isalnum((unsigned char)s[k]) || (k == 0 && (*s == '-' || *s == '+')))){ t[k] = s[k]; k++; } t[k] = 0; long long v = strtoll(t, &e, *f == 'd' || *f == 'u' ? 10 : *f == 'x' ? 16 : 0); if(e == t) return n; s += e - t; if(!sup){ if(lng >= 1) *va_arg(ap, long *) = v; else if(lng == -1) *va_arg(ap, short *) = v; else if(lng < -1) *va_arg(ap, char *) = v; else *va_arg(ap, int *) = v; n++; } break; }
    case 'f': case 'g': case 'e': case 'a': { while(k < lim && s[k] && !isspace((unsigned char)s[k])){ t[k] = s[k]; k++; } t[k] = 0; double v = strtod(t, &e); if(e == t) return n; s += e - t; if(!sup){ if(lng) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = v; n++; } break; }
    case 's': { char *d = sup ? 0 : va_arg(ap, char *); while(*s && !isspace((unsigned char)*s) && (!w || k < w)){ if(d) d[k] = *s; k++; s++; } if(d){ d[k] = 0; n++; } break; }
    case 'c': { char *d = sup ? 0 : va_arg(ap, char *); if(!w) w = 1; while(k < w && *s){ if(d) d[k] = *s; k++; s++; } if(d) n++; break; }
    case 'n': *va_arg(ap, int *) = (int)(s - s0); break;
    default: abort();
    }
  }
  return n;
}
int sscanf(const char *s, const char *f, ...){ va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); return r; }
struct vl_tm { int sec, min, hour, mday, mon, year, wday, yday, isdst; };
static const char *vl_num(const char *s, int w, int lo, int hi, int *v){ while(*s == ' ') s++; if(*s < '0' || *s > '9') return 0; int x = 0; while(w-- && *s >= '0' && *s <= '9') x = x * 10 + *s++ - '0'; if(x < lo || x > hi) return 0; *v = x; return s; }
/* strptime: %Y %m %d %H %M %S, literals and white space (wday and yday are not computed) */
char *strptime(const char *s, const char *f, void *vtm){
  struct vl_tm *t = vtm;
  for(; *f; f++){
    if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*s)) s++; continue; }
    if(*f != '%'){ if(*s++ != *f) return 0; continue; }
    int v; switch(*++f){
    case 'Y': s = vl_num(s, 4, 0, 9999, &v); if(s) t->year = v - 1900; break;
    case 'm': s = vl_num(s, 2, 1, 12, &v); if(s) t->mon = v - 1; break;
    case 'd': s = vl_num(s, 2, 1, 31, &v); if(s) t->mday = v; break;
    case 'H': s = vl_num(s, 2, 0, 23, &v); if(s) t->hour = v; break;
    case 'M': s = vl_num(s, 2, 0, 59, &v); if(s) t->min = v; break;
    case 'S': s = vl_num(s, 2, 0, 61, &v); if(s) t->sec = v; break;
    default: abort(); }
    if(!s) return 0;
  }
  return (char *)s;
}
/* Bessel functions of integer order are uninterpreted functions of both arguments in the engine */
double vh_jn(double n, double x); double vh_yn(double n, double x);
double jn(int n, double x){ return vh_jn(n, x); }
double yn(int n, double x){ return vh_yn(n, x); }
int ilogb(double x){ uint64_t u; memcpy(&u, &x, 8); int e = (int)(u >> 52 & 0x7ff); uint64_t m = u & 0xfffffffffffffull; if(e == 0x7ff) return m ? INT_MIN : INT_MAX; if(e) return e - 1023; if(!m) return INT_MIN; e = -1023; while(!(m & 0x8000000000000ull)){ m <<= 1; e--; } return e; }
