/* expressions, lists and strings past every fixed buffer: the shape is picked from a list, the values are symbolic */
#define G_PAY 1100
#define G_ADDR 40
#define G_MAXARG 140
#define G_MAXMSG 40
#define WMAX 200000
#include "expr.h"
#include "osc_parser.h"
static int pickn(const int *l, int n){ return l[in_pick(0, n - 1)]; }
#define PICK(...) pickn((const int[]){ __VA_ARGS__ }, (int)(sizeof((const int[]){ __VA_ARGS__ }) / sizeof(int)))
static t_osc_atom_ar_u *out; static long live0; static char T[70000];
static int run(const char *t){ live0 = vh_live(); return ev(t, &L, &P, &out); }
static void done(void){ if(out) osc_atom_array_u_free(out); out = NULL; CHECK(vh_live() == live0, "no heap block is left"); }
static void val(int n, const g_arg *e){ CHECK((out ? osc_atom_array_u_getLen(out) : 0) == n, "length of the value"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(out, i), &e[i]), "element of the value"); }
static void fill(g_arg *a, int n){ a->len = n; for(int i = 0; i < n; i++) a->b[i] = 'A' + i % 26; if(n){ uint8_t c = in_u8(); ASSUME((c > 32) & (c < 127) & (c != '"') & (c != '\\')); a->b[n - 1] = c; } a->b[n] = 0; }
static g_msg *mk(const char *ad, int n, const char *types, int slen){ g_msg *m = &B.m[B.n++]; strcpy(m->addr, ad); m->alen = strlen(ad); m->n = n; int k = strlen(types); for(int i = 0; i < n; i++){ g_arg *a = &m->a[i]; memset(a, 0, 16); a->tt = types[i % k]; if(a->tt == 's') fill(a, slen); else g_value(a); } return m; }
static g_arg e[G_MAXARG * 2];
#define SIZES 4, 5, 8, 9, 16, 17, 32, 33, 65
/* E04: lists */
void h_lists(void){
  int na = PICK(SIZES), k = in_pick(0, 14); g_arg *a = mk("/a", na, PICK(0, 1) ? "i" : "sid", 3)->a, *b = mk("/b", na - 1, "i", 0)->a; setup(); int n = 0, last = na - 1;
  static const char *txt[] = { "length(/a)", "reverse(/a)", "first(/a)", "last(/a)", "rest(/a)", "butlast(/a)", "identity(/a)", "list(/a, /b)", "interleave(/a, /b)", "progn(/b, /a)", "/a[[%d]]", "nth(/a, %d, 0)", "nfill(2, /a)", "list(/a, 1, /b)", "value(\"/a\")" }; sprintf(T, txt[k], last); CHECK(!run(T), "evaluates");
  switch(k){ case 0: e[n++] = i32(na); break; case 1: for(int i = na - 1; i >= 0; i--) e[n++] = a[i]; break; case 2: e[n++] = a[0]; break; case 3: case 10: e[n++] = a[last]; break; case 4: for(int i = 1; i < na; i++) e[n++] = a[i]; break; case 5: for(int i = 0; i < last; i++) e[n++] = a[i]; break; case 6: case 9: case 14: for(int i = 0; i < na; i++) e[n++] = a[i]; break; case 7: case 13: for(int i = 0; i < na; i++) e[n++] = a[i]; if(k == 13) e[n++] = i32(1); for(int i = 0; i < na - 1; i++) e[n++] = b[i]; break; case 8: for(int i = 0; i < na - 1; i++){ e[n++] = a[i]; e[n++] = b[i]; } break; case 11: e[n++] = a[last]; e[n++] = a[0]; break; case 12: for(int j = 0; j < 2; j++) for(int i = 0; i < na; i++) e[n++] = a[i]; break; }
  val(n, e); holds_bytes(&B, "the bundle is unchanged"); done(); REACH("done");
}
/* E04: order and summaries; one value is moved through the whole range */
void h_order(void){
  int na = PICK(SIZES), fl = in_pick(0, 1), k = in_pick(0, 7); g_msg *m = mk("/a", na, "i", 0); double t[80], s = 0; for(int i = 0; i < na; i++){ int v = i * 37 % na * 3 - na; if(i == na / 2) v = PICK(0, 1, 2, 3) * na - na - 1; t[i] = v; s += v; m->a[i].tt = fl ? 'd' : 'i'; m->a[i].bits = fl ? d2u(v) : (uint32_t)v; } double u[80]; memcpy(u, t, sizeof u); for(int i = 1; i < na; i++) for(int j = i; j && u[j - 1] > u[j]; j--){ double x = u[j]; u[j] = u[j - 1]; u[j - 1] = x; } setup();
  static const char *txt[] = { "sort(/a)", "min(/a)", "max(/a)", "sum(/a)", "median(/a)", "cumsum(/a)", "extrema(/a)", "sortidx(/a)" }; CHECK(!run(txt[k]), "evaluates"); int n = 0;
#define NUM(x) (fl ? (memset(&e[n], 0, sizeof e[n]), e[n].tt = 'd', e[n].bits = d2u(x)) : (e[n] = i32((int)(x)), 0), n++)
  switch(k){ case 0: for(int i = 0; i < na; i++) NUM(u[i]); break; case 1: NUM(u[0]); break; case 2: NUM(u[na - 1]); break; case 3: NUM(s); break; case 4: fl = 1; NUM(na % 2 ? u[na / 2] : (u[na / 2 - 1] + u[na / 2]) / 2); break; case 5: s = 0; for(int i = 0; i < na; i++){ s += t[i]; NUM(s); } break; case 6: NUM(u[0]); NUM(u[na - 1]); break;
  case 7: { CHECK(out && osc_atom_array_u_getLen(out) == na, "as many indexes"); char seen[80] = { 0 }; for(int i = 0; i < na; i++){ int x = osc_atom_u_getInt32(osc_atom_array_u_get(out, i)); CHECK(x >= 0 && x < na && !seen[x], "each index once"); seen[x] = 1; CHECK(t[x] == u[i], "in order"); } } }
  if(k != 7) val(n, e); holds_bytes(&B, "the bundle is unchanged"); done(); REACH("done");
}
/* E01, E02: element by element */
void h_elements(void){
  int na = PICK(SIZES), nb = PICK(0, 1, 2) ; nb = nb == 0 ? na : nb == 1 ? 1 : na - 1; int k = in_pick(0, 5), op = in_pick(0, 3); const char *ty = k < 3 ? "iIH" : "i"; g_arg *a = mk("/a", na, ty, 0)->a, *b = mk("/b", nb, ty, 0)->a; if(k > 3) for(int i = 0; i < na; i++){ if(i != na - 1) a[i].bits = (uint32_t)(i * 7 % 11); if(i < nb) b[i].bits = (uint32_t)(i * 5 % 11); } setup(); int n = nb == 1 ? na : nb; g_bndl *X = malloc(sizeof *X); *X = B;
  static const char *txt[] = { "/a %c /b", "/b %c /a", "/r = /a %c /b", "/a %c= 7", "/a %s /b", "/a %s 5" }; static const char *rel[] = { "==", "<", ">=", "!=" }; if(k < 4) sprintf(T, txt[k], "+-*+"[op]); else sprintf(T, txt[k], rel[op]); CHECK(!run(T), "evaluates");
  if(k == 3 || k == 5) n = na; for(int i = 0; i < n; i++){ g_arg y = k == 3 ? i32(7) : k == 5 ? i32(5) : b[nb == 1 ? 0 : i]; if(k == 1) arith("+-*+"[op], &y, &a[i], &e[i]); else if(k < 4) arith("+-*+"[op], &a[i], &y, &e[i]); else if(nb > 0){ int p = (int32_t)a[i].bits, q = (int32_t)y.bits; memset(&e[i], 0, sizeof e[i]); int t = op == 0 ? p == q : op == 1 ? p < q : op == 2 ? p >= q : p != q; e[i].tt = osc_atom_u_getTypetag(osc_atom_array_u_get(out, i)); CHECK(e[i].tt == (t ? 'T' : 'F'), "the comparison"); } }
  val(n, e); if(k == 2) put(X, "/r", n, e); else if(k == 3) put(X, "/a", n, e); holds_bytes(X, "the bundle holds the value and nothing else changed"); done(); free(X); REACH("done");
}
/* E06: long and deep expressions */
void h_terms(void){
  int n = PICK(3, 5, 8, 17, 33), k = in_pick(0, 5); mk("/a", 1, "i", 0); setup(); int32_t v = (int32_t)B.m[0].a[0].bits; uint32_t r = (uint32_t)v; int l = 0; static const char *ops = "+-*"; T[0] = 0;
  switch(k){
  case 0: l = sprintf(T, "/a"); for(int i = 0; i < n; i++){ l += sprintf(T + l, " %c %d", "+-"[i % 2], i * i + 1); r = i % 2 ? r - (i * i + 1) : r + (i * i + 1); } break;
  case 1: for(int i = 0; i < n; i++) l += sprintf(T + l, "("); l += sprintf(T + l, "/a"); for(int i = 0; i < n; i++){ int c = i % 5 + 2; int o = i == 5 ? 2 : i % 2; l += sprintf(T + l, " %c %d)", ops[o], c); r = o == 0 ? r + c : o == 1 ? r - c : r * c; } break;
  case 2: for(int i = 0; i < n; i++) l += sprintf(T + l, "(%d %c ", i + 3, "+-"[i % 2]); l += sprintf(T + l, "/a"); for(int i = 0; i < n; i++) l += sprintf(T + l, ")"); for(int i = n - 1; i >= 0; i--) r = i % 2 ? i + 3 - r : i + 3 + r; break;
  case 3: for(int i = 0; i < n; i++) l += sprintf(T + l, "add(%d, ", i); l += sprintf(T + l, "/a"); for(int i = 0; i < n; i++){ l += sprintf(T + l, ")"); r += i; } break;
  case 4: for(int i = 0; i < n; i++) l += sprintf(T + l, "/r%d = ", i % 3); l += sprintf(T + l, "/a"); break;
  case 5: l = sprintf(T, "/a"); for(int i = 0; i < n; i++) l += sprintf(T + l, ", /a += %d", i); r += n * (n - 1) / 2; break;
  }
  CHECK(!run(T), "evaluates"); g_arg x = i32((int)r); val(1, &x); static g_bndl X; X = B; if(k == 5) put(&X, "/a", 1, &x); if(k == 4) for(int i = 2; i >= 0; i--) put(&X, i == 2 ? "/r2" : i ? "/r1" : "/r0", 1, &x);
  if(k != 4) holds_bytes(&X, "nothing else changed"); else { CHECK(L == g_enc_bndl(W, &X), "size of the bundle"); long c = 0; osc_bundle_s_getMsgCount(L, P, &c); CHECK(c == 4, "each name is bound once"); t_osc_bndl_it_s *it = osc_bndl_it_s_get(L, P); while(osc_bndl_it_s_hasNext(it)){ t_osc_atom_s *q = NULL; osc_message_s_getArg(osc_bndl_it_s_next(it), 0, &q); CHECK(g_eq_s(q, &x), "every name has the value"); osc_atom_s_free(q); } osc_bndl_it_s_destroy(it); } done(); REACH("done");
}
/* E03: literals of many elements and long strings; bundles of many messages */
void h_literal(void){
  int k = in_pick(0, 3), n = k == 1 ? PICK(15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300, 511, 512, 513, 1024) : PICK(4, 5, 8, 9, 16, 17, 33, 65, 120), l; mk("/a", 1, "i", 0); setup(); static g_bndl X; X = B; l = sprintf(T, "/r = ");
  if(k == 1){ memset(&e[0], 0, 16); e[0].tt = 's'; e[0].len = n; for(int i = 0; i < n; i++) e[0].b[i] = 'a' + i % 26; e[0].b[n] = 0; l += sprintf(T + l, "\"%s\"", (char *)e[0].b); n = 1; }
  else { l += sprintf(T + l, k == 3 ? "list(" : "["); for(int i = 0; i < n; i++){ if(i) l += sprintf(T + l, ", "); if(k == 2 && i % 3 == 1){ l += sprintf(T + l, "/a"); e[i] = B.m[0].a[0]; } else { l += sprintf(T + l, "%d", i * 1001); e[i] = i32(i * 1001); } } l += sprintf(T + l, k == 3 ? ")" : "]"); }
  CHECK(!run(T), "evaluates"); val(n, e); put(&X, "/r", n, e); holds_bytes(&X, "the bundle holds the value and nothing else changed"); done(); REACH("done");
}
void h_bound(void){
  int n = PICK(8, 9, 16, 17, 33), k = in_pick(0, 5); for(int i = 0; i < n; i++){ char ad[8]; sprintf(ad, "/m%d", i); mk(ad, 1 + i % 2, "is", 3); } B.tt = in_u64(); setup(); int x = PICK(0, 1, 2); x = x == 0 ? 0 : x == 1 ? n / 2 : n - 1; static g_bndl X; X = B; g_msg *m = &X.m[x]; int c = m->n; memcpy(e, m->a, c * sizeof *e);
  static const char *txt[] = { "/m%d", "/new = /m%d", "/m%d = [1, 2, 3]", "delete(/m%d)", "bound(/m%d)", "/m%d[[0]] + 1" }; sprintf(T, txt[k], x); CHECK(!run(T), "evaluates");
  switch(k){ case 1: put(&X, "/new", c, e); break; case 2: for(c = 0; c < 3; c++) e[c] = i32(c + 1); put(&X, m->addr, 3, e); break; case 3: drop(&X, m->addr); break; case 4: c = 1; e[0] = i32(0); e[0].tt = 'T'; break; case 5: { g_arg y = i32(1), z = e[0]; arith('+', &z, &y, &e[0]); c = 1; } }
  if(k != 3) val(c, e); holds_bytes(&X, "the bundle holds the value and nothing else changed"); done(); REACH("done");
}
/* E08: map and reductions */
void h_map(void){
  int n = PICK(SIZES), k = in_pick(0, 4); g_arg *a = mk("/a", n, "i", 0)->a; setup(); static const char *txt[] = { "map(lambda([x], x * 3), /a)", "map(add, /a, /a)", "lreduce(add, /a)", "lreduce(lambda([x, y], x - y), /a)", "apply(add, [/a[[0]], /a[[1]]])" }; if(k == 4) k = 1; CHECK(!run(txt[k]), "evaluates"); int c = k < 2 ? n : 1; uint32_t r = (uint32_t)a[0].bits;
  if(k < 2) for(int i = 0; i < n; i++) e[i] = i32((int)((uint32_t)a[i].bits * (k ? 2 : 3))); else { for(int i = 1; i < n; i++) r = k == 2 ? r + (uint32_t)a[i].bits : r - (uint32_t)a[i].bits; e[0] = i32((int)r); } val(c, e); holds_bytes(&B, "the bundle is unchanged"); done(); REACH("done");
}
/* E09: long strings */
void h_strings(void){
  int n = PICK(15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000), k = in_pick(0, 6); g_arg *a = mk("/a", 1, "s", n)->a, *b = mk("/b", 1, "s", 3)->a; mk("/s", 1, "s", 1)->a[0].b[0] = ','; setup(); int c = 1; memset(e, 0, 16);
  static const char *txt[] = { "strlen(/a)", "join(/s, /a, /b)", "join(/s, /b, /a)", "strcmp(/a, /a)", "split(\"C\", /a)", "strfind(\"XYZ\", /a)", "join(\"\", split(\"C\", /a))" }; CHECK(!run(txt[k]), "evaluates"); int q = 0; if(k == 0){ CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); t_osc_atom_u *u = osc_atom_array_u_get(out, 0); CHECK(osc_atom_u_getInt32(u) == n, "the length"); e[0] = i32(n); e[0].tt = osc_atom_u_getTypetag(u); }
  switch(k){ case 0: break; case 1: case 2: { g_arg *x = k == 1 ? a : b, *y = k == 1 ? b : a; e[0].tt = 's'; memcpy(e[0].b, x->b, x->len); e[0].b[x->len] = ','; memcpy(e[0].b + x->len + 1, y->b, y->len); e[0].len = x->len + y->len + 1; e[0].b[e[0].len] = 0; break; } case 3: e[0] = i32(0); break;
  case 5: { c = 0; for(int i = 0; i + 3 <= n; ) if(a->b[i] == 'X' && a->b[i + 1] == 'Y' && a->b[i + 2] == 'Z'){ memset(&e[c], 0, 16); e[c].tt = 'h'; e[c++].bits = i; i += 3; } else i++; break; }
  case 4: c = 0; for(int i = 0; i <= n; i++) if(i == n || a->b[i] == 'C'){ if(i > q){ memset(&e[c], 0, 16); e[c].tt = 's'; e[c].len = i - q; memcpy(e[c].b, a->b + q, i - q); e[c].b[i - q] = 0; c++; } q = i + 1; } break;
  case 6: e[0].tt = 's'; for(int i = 0; i < n; i++) if(a->b[i] != 'C') e[0].b[q++] = a->b[i]; e[0].len = q; e[0].b[q] = 0; break; }
  val(c, e); holds_bytes(&B, "the bundle is unchanged"); done(); REACH("done");
}
/* E08: the tokens of a long text and of every operator */
t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar);
static void tok(t_osc_atom_u *u, const char *s, int num){ if(num){ CHECK(osc_atom_u_getTypetag(u) == 'i' && osc_atom_u_getInt32(u) == atoi(s), "a token of the text"); return; } char *q = NULL; osc_atom_u_getString(u, 0, &q); CHECK(q && !strcmp(q, s), "a token of the text"); osc_mem_free(q); }
void h_tokens(void){
  static const char *S[] = { "+", "-", "*", "/", "%", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "!", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", "\?\?", "\?\?=", "?", ":", "=", "(", ")", "[", "]", "[[", "]]", "{", "}", ",", "lambda", "quote", "/b/c", "12", "name", "." };
  int k = in_pick(0, 1), n = k ? PICK(1, 31, 32, 33, 47, 48, 49, 64, 100) : 1, l = 0, w = in_pick(0, 44), c = 0; char z[8]; setup(); if(k) ASSUME(w == 0); if(k) for(int i = 0; i < n; i++) l += sprintf(T + l, i ? " + %d" : "%d", i * 3); else sprintf(T, "/a %s 1", S[w]);
  t_osc_atom_array_u *ar = NULL; live0 = vh_live(); char *t = g_heap(T, (int)strlen(T) + 1); CHECK(!osc_expr_lex(t, &ar) && ar, "the text is split"); free(t); int m = osc_atom_array_u_getLen(ar); CHECK(m == (k ? 2 * n - 1 : 3), "number of tokens");
  if(k) for(int i = 0; i < m; i++){ if(i % 2) tok(osc_atom_array_u_get(ar, i), "+", 0); else { sprintf(z, "%d", i / 2 * 3); tok(osc_atom_array_u_get(ar, i), z, 1); } } else { tok(osc_atom_array_u_get(ar, 0), "/a", 0); tok(osc_atom_array_u_get(ar, 1), S[w], w == 42); tok(osc_atom_array_u_get(ar, 2), "1", 1); }
  osc_atom_array_u_free(ar); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* E05, P01: long and deep texts are parsed or refused, inside their memory, and leave nothing */
static int rep(int l, const char *s, int n){ int q = strlen(s); for(int i = 0; i < n; i++, l += q) memcpy(T + l, s, q); T[l] = 0; return l; }
void h_long(void){
  int k = in_pick(0, 9), close = in_pick(0, 1), n = k < 7 ? PICK(3, 20, 49, 50, 51, 65, 66, 67, 68, 90) : PICK(100, 255, 256, 1023, 1024, 1025, 2047, 2048, 2049), l = 0; osc_error_setHandler(quiet);
  static const char *open[] = { "(1 + ", "[", "!", "add(1, ", "if(1, 3, ", "/a = ", "1, ", "/", "\"", "1" }, *shut[] = { ")", "]", "", ")", ")", "", "", "", "", "" }; if(k < 7){ l = rep(l, open[k], n); l = rep(l, "2", 1); if(close) l = rep(l, shut[k], n); } else { l = rep(l, k == 7 ? "/" : k == 8 ? "\"" : "1", 1); l = rep(l, k == 9 ? "0" : "q", n); if(close && k == 8) l = rep(l, "\"", 1); }
  char *t = g_heap(T, l + 1); t_osc_expr *f = NULL; live0 = vh_live(); int r = osc_expr_parser_parseExpr(t, &f, NULL); if(close && (k == 0 || k == 3 || k == 4 || k == 6 || k == 7)) CHECK(!r && f, "the expression parses"); if(!r) REACH("parsed"); else REACH("error"); if(f) osc_expr_free(f); CHECK(r || vh_live() == live0, "an expression that was freed leaves no heap block"); free(t);
}
void h_long_text(void){
  int k = in_pick(0, 4), close = in_pick(0, 1), n = k < 3 ? PICK(3, 20, 33, 39, 40, 41, 49, 50, 51, 64, 65, 66, 67) : PICK(100, 255, 256, 1023, 1024, 1025, 2047, 2048, 2049, 4096), l = 0; osc_error_setHandler(quiet);
  if(k == 0){ l = rep(l, "/a : {", n); l = rep(l, "/b : 2", 1); if(close) l = rep(l, "}", n); } else if(k == 1){ l = rep(l, "/a : [", 1); l = rep(l, "1, ", n); l = rep(l, "2", 1); if(close) l = rep(l, "]", 1); } else if(k == 2){ l = rep(l, "/a : 1,\n", n); l = rep(l, "/b", 1); } else if(k == 3){ l = rep(l, "/", 1); l = rep(l, "q", n); l = rep(l, " : 1", 1); } else { l = rep(l, "/a : \"", 1); l = rep(l, "q", n); if(close) l = rep(l, "\"", 1); }
  char *t = g_heap(T, l + 1); t_osc_bndl_u *b = NULL; live0 = vh_live(); int r = osc_parser_parseString(l, t, &b); if(close) CHECK(!r && b, "the text parses"); if(!r) REACH("parsed"); else REACH("error"); if(!r){ t_osc_bndl_s *s = osc_bundle_u_serialize(b); CHECK(osc_error_bundleSanityCheck(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)) == OSC_ERR_NONE, "the parsed bundle serialises to a well-formed one"); osc_bundle_s_deepFree(s); osc_bundle_u_free(b); CHECK(vh_live() == live0, "parsing leaves no heap block but the bundle"); } free(t);
}
VH_MAIN
