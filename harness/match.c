#include "gen.h"
#ifndef NTOK
#define NTOK 3
#endif
#ifndef AMAX
#define AMAX 4
#endif
static char P[64], A[16]; static int np, na; static unsigned char reach_[12][12]; static int tokoff[12], slash[12], nt;
static uint8_t lit(void){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127) & (c != '*') & (c != '?') & (c != '[') & (c != ']') & (c != '{') & (c != '}') & (c != ',') & (c != '/') & (c != '!') & (c != '-')); return c; }
/* token kinds: 0 literal 1 ? 2 * 3 [c] 4 [c-d] 5 [!c] 6 [cd] 7 {c,d} 8 {c,de} 9 / 10 [!c-d] 11 {cd} */
#ifndef KINDS
#define KINDS 11
#endif
/* an address component that is just a star matches any pattern component */
static unsigned char star_[12], at_[12];
static void stars(unsigned char *r, const unsigned char *start){ if(start){ for(int j = 0; j < na; j++) at_[j] = start[j] & star_[j]; at_[na] = 0; } else for(int j = 0; j < na; j++) r[j + 1] |= at_[j]; }
static void token(void){
  int k = in_pick(0, KINDS); unsigned char *r = reach_[nt], *q = reach_[nt + 1]; memset(q, 0, 12); tokoff[nt] = np; slash[nt] = k == 9;
  uint8_t c, d, e;
#define STEP(cond) for(int j = 0; j < na; j++) q[j + 1] |= r[j] & ((cond) & (A[j] != '/'))
  switch(k){
  case 0: c = lit(); P[np++] = c; STEP(A[j] == c); break;
  case 1: P[np++] = '?'; STEP(1); break;
  case 2: P[np++] = '*'; for(int j = 0; j <= na; j++){ q[j] |= r[j]; if(j < na) q[j + 1] |= q[j] & (A[j] != '/'); } break;
  case 3: c = lit(); P[np++] = '['; P[np++] = c; P[np++] = ']'; STEP(A[j] == c); break;
  case 4: c = lit(); d = lit(); ASSUME(c <= d); P[np++] = '['; P[np++] = c; P[np++] = '-'; P[np++] = d; P[np++] = ']'; STEP((A[j] >= c) & (A[j] <= d)); break;
  case 5: c = lit(); P[np++] = '['; P[np++] = '!'; P[np++] = c; P[np++] = ']'; STEP(A[j] != c); break;
  case 6: c = lit(); d = lit(); P[np++] = '['; P[np++] = c; P[np++] = d; P[np++] = ']'; STEP((A[j] == c) | (A[j] == d)); break;
  case 7: c = lit(); d = lit(); P[np++] = '{'; P[np++] = c; P[np++] = ','; P[np++] = d; P[np++] = '}'; STEP((A[j] == c) | (A[j] == d)); break;
  case 8: c = lit(); d = lit(); e = lit(); P[np++] = '{'; P[np++] = c; P[np++] = ','; P[np++] = d; P[np++] = e; P[np++] = '}'; STEP(A[j] == c); for(int j = 0; j + 1 < na; j++) q[j + 2] |= r[j] & (A[j] == d) & (A[j + 1] == e); break;
  case 9: P[np++] = '/'; stars(r, NULL); for(int j = 0; j < na; j++) q[j + 1] |= r[j] & (A[j] == '/'); stars(NULL, q); break;
  case 10: c = lit(); d = lit(); ASSUME(c <= d); P[np++] = '['; P[np++] = '!'; P[np++] = c; P[np++] = '-'; P[np++] = d; P[np++] = ']'; STEP((A[j] < c) | (A[j] > d)); break;
  case 11: c = lit(); d = lit(); P[np++] = '{'; P[np++] = c; P[np++] = d; P[np++] = '}'; for(int j = 0; j + 1 < na; j++) q[j + 2] |= r[j] & (A[j] == c) & (A[j + 1] == d); break;
  }
  nt++;
}
void h_match(void){
  na = in_pick(1, AMAX); A[0] = '/'; for(int i = 1; i < na; i++){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127)); A[i] = c; } A[na] = 0; for(int j = 1; j < na; j++) star_[j] = (A[j] == '*') & (A[j - 1] == '/') & (j + 1 == na ? 1 : A[j + 1] == '/');
  P[0] = '/'; np = 1; memset(reach_, 0, sizeof reach_); reach_[0][1] = 1; nt = 0; stars(NULL, reach_[0]); int n = in_pick(0, NTOK); for(int i = 0; i < n; i++) token(); P[np] = 0; tokoff[nt] = np; stars(reach_[nt], NULL);
  char *p = g_heap(P, np + 1), *a = g_heap(A, na + 1); int po = -1, ao = -1;
  int r = osc_match(p, a, &po, &ao);
  int full = reach_[nt][na], pc = 0, pca = 0, ac = 0, aco = 0;
  for(int j = 1; j < na; j++){ int t = reach_[nt][j] & (A[j] == '/'); pc |= t; pca = t ? j : pca; }
  for(int i = 0; i < nt; i++) if(slash[i]){ int t = reach_[i][na]; ac |= t; if(t) aco = tokoff[i]; }
  if(full){ CHECK(r == (OSC_MATCH_PATTERN_COMPLETE | OSC_MATCH_ADDRESS_COMPLETE), "complete match"); CHECK(po == np && ao == na, "offsets of a complete match"); REACH("both"); }
  else if(pc){ CHECK(r == OSC_MATCH_PATTERN_COMPLETE, "pattern consumed"); CHECK(po == np && ao == pca, "offsets when the pattern is consumed"); REACH("pattern"); }
  else if(ac){ CHECK(r == OSC_MATCH_ADDRESS_COMPLETE, "address consumed"); CHECK(po == aco && ao == na, "offsets when the address is consumed"); REACH("address"); }
  else { CHECK(r == OSC_MATCH_NOMATCH, "no match"); CHECK(po == 0 && ao == 0, "offsets without a match"); REACH("none"); }
  free(p); free(a);
}
/* larger fixed-shape patterns: several stars with backtracking */
void h_match_stars(void){
  static const char *const SH[] = { "/*x*y", "/x*y*", "/*x*x*", "/**x?*", "/*[xy]*z", "/*{x,yx}*", "/?*x/*y", "/x*/*", "/{xy,x}*y", "/*/*x/y" };
  int k = in_pick(0, 9); uint8_t cx = lit(), cy = lit(), cz = lit(); const char *s = SH[k]; np = strlen(s); for(int i = 0; i < np; i++) P[i] = s[i] == 'x' ? cx : s[i] == 'y' ? cy : s[i] == 'z' ? cz : s[i]; P[np] = 0;
  na = in_pick(1, AMAX + 2); A[0] = '/'; for(int i = 1; i < na; i++){ uint8_t c = in_u8(); ASSUME((c == '/') | (c == cx) | (c == cy) | (c == cz) | (c == 'q')); A[i] = c; } A[na] = 0;
  /* reference: reachable address positions, token by token */
  unsigned char r[16], q[16]; memset(r, 0, 16); r[0] = 1; int pc = 0, pca = 0, ac = 0, aco = 0;
  for(int i = 0; s[i]; i++){
    memset(q, 0, 16);
    if(s[i] == '/') { if(r[na]){ ac = 1; aco = i; } for(int j = 0; j < na; j++) q[j + 1] |= r[j] & (A[j] == '/'); }
    else if(s[i] == '*') for(int j = 0; j <= na; j++){ q[j] |= r[j]; if(j < na) q[j + 1] |= q[j] & (A[j] != '/'); }
    else if(s[i] == '?') { for(int j = 0; j < na; j++) q[j + 1] |= r[j] & (A[j] != '/'); }
    else if(s[i] == '['){ for(int j = 0; j < na; j++) q[j + 1] |= r[j] & ((A[j] == cx) | (A[j] == cy)); i += 3; }
    else if(s[i] == '{'){ i++; while(1){ int l = 0; while(s[i + l] != ',' && s[i + l] != '}') l++; for(int j = 0; j + l <= na; j++){ int e = r[j]; for(int m = 0; m < l; m++) e &= A[j + m] == P[i + m]; q[j + l] |= e; } i += l; if(s[i] == '}') break; i++; } }
    else for(int j = 0; j < na; j++) q[j + 1] |= r[j] & (A[j] == P[i]);
    memcpy(r, q, 16);
  }
  for(int j = 1; j < na; j++){ int t = r[j] & (A[j] == '/'); pc |= t; pca = t ? j : pca; }
  char *p = g_heap(P, np + 1), *a = g_heap(A, na + 1); int po = -1, ao = -1, m = osc_match(p, a, &po, &ao);
  if(r[na]){ CHECK(m == 3 && po == np && ao == na, "complete match"); REACH("both"); }
  else if(pc){ CHECK(m == OSC_MATCH_PATTERN_COMPLETE && po == np && ao == pca, "pattern consumed"); REACH("pattern"); }
  else if(ac){ CHECK(m == OSC_MATCH_ADDRESS_COMPLETE && po == aco && ao == na, "address consumed"); REACH("address"); }
  else { CHECK(m == OSC_MATCH_NOMATCH && po == 0 && ao == 0, "no match"); REACH("none"); }
  free(p); free(a);
}
/* an address component "*" matches any pattern component */
void h_match_addrstar(void){
  na = 2; A[0] = '/'; A[1] = '*'; A[2] = 0; P[0] = '/'; np = 1; memset(reach_, 0, sizeof reach_); nt = 0; int n = in_pick(1, NTOK); int sl = 0; for(int i = 0; i < n; i++){ token(); sl |= slash[i]; if(i == 0 && slash[0]) return; } P[np] = 0;
  char *p = g_heap(P, np + 1), *a = g_heap(A, na + 1); int po = -1, ao = -1, r = osc_match(p, a, &po, &ao);
  CHECK(r == (sl ? OSC_MATCH_ADDRESS_COMPLETE : 3), "star component in the address"); REACH("done"); free(p); free(a);
}
/* one set or list of alternatives of every form, between stars and literals; x, y, z are arbitrary characters, the address arbitrary */
void h_match_sets(void){
  static const char *const SH[] = { "/[]]", "/[]x]", "/[!]]", "/[!]x]", "/[]-x]", "/[-x]", "/[!-x]", "/[x-]", "/[!x-]", "/[x-y]", "/[!x-y]", "/[xx-y]", "/[x-yz]", "/[!x-yz]", "/[--x]", "/[xyz]", "/[!xyz]", "/[x!]", "/x[!y]z", "/*[]x]", "/[!x]*y",
    "/{xyz,yz,z}", "/{x,xy,xyz}z", "/{x,y,z,xy}", "/{xyz,x}", "/{xx,yy,zz,xyx}", "/*{y,xy}", "/{x,y}{z,x}", "/{x,xy}{yz,z}", "/{x}/{y}", "/[xy]/[!z]", "/{x*,y}", "/?[x-z]?" };
  static unsigned char ok[16], nx[16]; int k = in_pick(0, sizeof SH / sizeof *SH - 1); uint8_t v[3]; for(int i = 0; i < 3; i++) v[i] = lit(); const char *s = SH[k]; np = strlen(s); int lits = 0;
  for(int i = 0; i < np; i++){ P[i] = s[i] >= 'x' && s[i] <= 'z' ? v[s[i] - 'x'] : s[i]; lits |= s[i] == '*' && i && strchr(s, '{') && strchr(s, '{') < s + i && strchr(s, '}') > s + i; } P[np] = 0;
  na = in_pick(1, AMAX); A[0] = '/'; for(int i = 1; i < na; i++){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127) & (c != '*')); A[i] = c; } A[na] = 0;
  memset(ok, 0, 16); ok[0] = 1; int pc = 0, pca = 0, ac = 0, aco = 0;
  for(int i = 0; i < np; ){
    memset(nx, 0, 16);
    if(s[i] == '['){
      int j = i + 1, neg = 0; if(s[j] == '!'){ neg = 1; j++; } unsigned char hit[16]; memset(hit, 0, 16); int first = 1;
      while(s[j] != ']' || first){ first = 0; if(s[j + 1] == '-' && s[j + 2] != ']'){ uint8_t lo = P[j], hi = P[j + 2]; for(int m = 0; m < na; m++) hit[m] |= ((A[m] >= lo) & (A[m] <= hi)) | ((A[m] >= hi) & (A[m] <= lo)); j += 3; } else { for(int m = 0; m < na; m++) hit[m] |= A[m] == P[j]; j++; } }
      for(int m = 0; m < na; m++) nx[m + 1] |= ok[m] & (hit[m] ^ neg) & (A[m] != '/'); i = j + 1;
    } else if(s[i] == '{'){
      i++; while(1){ int l = 0; while(s[i + l] != ',' && s[i + l] != '}') l++; for(int m = 0; m + l <= na; m++){ int e = ok[m]; for(int q = 0; q < l; q++) e &= A[m + q] == P[i + q]; nx[m + l] |= e; } i += l; if(s[i++] == '}') break; }
    } else {
      if(s[i] == '/' && ok[na]){ ac = 1; aco = i; }
      if(s[i] == '*') for(int m = 0; m <= na; m++){ nx[m] |= ok[m]; if(m < na) nx[m + 1] |= nx[m] & (A[m] != '/'); }
      else for(int m = 0; m < na; m++) nx[m + 1] |= ok[m] & (s[i] == '?' ? A[m] != '/' : A[m] == P[i]);
      i++;
    }
    memcpy(ok, nx, 16);
  }
  if(lits) return; /* a star inside alternatives is not a pattern of its own */
  for(int j = 1; j < na; j++){ int t = ok[j] & (A[j] == '/'); pc |= t; pca = t ? j : pca; }
  char *p = g_heap(P, np + 1), *a = g_heap(A, na + 1); int po = -1, ao = -1, m = osc_match(p, a, &po, &ao);
  if(ok[na]){ CHECK(m == 3 && po == np && ao == na, "complete match"); REACH("both"); }
  else if(pc){ CHECK(m == OSC_MATCH_PATTERN_COMPLETE && po == np && ao == pca, "pattern consumed"); REACH("pattern"); }
  else if(ac){ CHECK(m == OSC_MATCH_ADDRESS_COMPLETE && po == aco && ao == na, "address consumed"); REACH("address"); }
  else { CHECK(m == OSC_MATCH_NOMATCH && po == 0 && ao == 0, "no match"); REACH("none"); }
  free(p); free(a);
}
#ifndef PL
#define PL 5
#endif
#ifndef AL
#define AL 4
#endif
/* M02: any two strings */
void h_match_any(void){
  int n = in_pick(0, PL), m = in_pick(0, AL); char *p = malloc(n + 1), *a = malloc(m + 1);
  for(int i = 0; i < n; i++){ p[i] = in_u8(); ASSUME(p[i] != 0); } p[n] = 0; for(int i = 0; i < m; i++){ a[i] = in_u8(); ASSUME(a[i] != 0); } a[m] = 0;
  int po = -1, ao = -1; int r = osc_match(p, a, &po, &ao);
  CHECK(po >= 0 && po <= n && ao >= 0 && ao <= m, "offsets inside the strings");
  if(r == 0) { CHECK(po == 0 && ao == 0, "no match, no offsets"); REACH("none"); }
  else if(r < 4){ CHECK(((r & OSC_MATCH_PATTERN_COMPLETE) != 0) == (po == n), "pattern consumed iff offset at its end"); CHECK(((r & OSC_MATCH_ADDRESS_COMPLETE) != 0) == (ao == m), "address consumed iff offset at its end"); REACH("match"); }
  else { CHECK(r >= 0x100 && r <= 0x800 && (r & 0xff) == 0 && osc_match_errstr(r) != NULL, "known error with a text"); CHECK(po == 0 && ao == 0, "errors carry no offsets"); CHECK((r == OSC_MATCH_ERROR_PATTERN_NO_LEADING_SLASH) == (p[0] != '/'), "pattern without a slash"); CHECK((r == OSC_MATCH_ERROR_ADDRESS_NO_LEADING_SLASH) == ((p[0] == '/') & (a[0] != '/')), "address without a slash"); REACH("error"); }
  free(p); free(a);
}
/* a bracket or brace that the address reaches and that is not closed in its component, or closes nothing, is an error */
void h_match_malformed(void){
  static const char *const SH[] = { "[", "[x", "[!", "[x-", "[]", "[-x", "[x-/]", "[x/]", "[]/]", "{", "{x", "{x,", "{x,y", "{x/y}", "{,/}", "]", "}", "x]", "x}", "[x]]", "{x}}", "?]", "[!y]}" }; static const int ERR[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 3, 3, 3, 3, 3, 2, 4, 2, 4, 2, 4, 2, 4 };
  int k = in_pick(0, 22), pre = in_pick(0, 2); char t[24], u[24]; strcpy(t, pre == 2 ? "/ab/" : pre ? "/a" : "/"); strcpy(u, t); strcat(t, SH[k]); strcat(u, "xw"); char c = in_u8(); ASSUME((c > 32) & (c < 127) & (c != '/')); if(k >= 9 && k <= 14) u[strlen(u) - 2] = c; else ASSUME(k > 8 || 1); char *p = g_heap(t, strlen(t) + 1), *a = g_heap(u, strlen(u) + 1); int po, ao;
  CHECK(osc_match(p, a, &po, &ao) == ERR[k] << 8, "the error of the malformed pattern"); CHECK(po == 0 && ao == 0, "errors carry no offsets"); REACH("done"); free(p); free(a);
}
/* many alternatives: the backtracking stack is bounded */
void h_match_deep(void){
  int n = 3 * 400; char *p = malloc(2200), *a = malloc(1700); int o = 0; p[o++] = '/'; int k = in_pick(0, 2), na_ = in_pick(0, 1) ? 1600 : 20; a[0] = '/'; for(int i = 1; i < na_; i++) a[i] = 'a'; uint8_t last = lit(); a[na_ - 1] = last; a[na_] = 0;
  if(k == 0){ p[o++] = '{'; for(int i = 0; i < 1050; i++){ p[o++] = 'a'; p[o++] = ','; } p[o++] = 'b'; p[o++] = '}'; }
  else if(k == 1){ p[o++] = '*'; p[o++] = 'z'; } else { p[o++] = '?'; p[o++] = '*'; p[o++] = 'a'; p[o++] = '?'; }
  p[o] = 0; int po, ao; int r = osc_match(p, a, &po, &ao); if(r < 0x100) CHECK(po >= 0 && po <= o && ao >= 0 && ao <= na_, "offsets inside the strings"); REACH("done"); (void)n; free(p); free(a);
}
VH_MAIN
