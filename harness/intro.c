#include "expr.h"
#include "osc_expr_rec.h"
#include "osc_expr_func.h"
#include "functable.h"
/* E11: the table of functions and its documentation, E12: expressions as objects */
static const struct { const char *n; int nr, no, rn, on; const char *cat; } FT[] = { FUNCTABLE };
#define NFT ((int)(sizeof FT / sizeof *FT))
#define NF ((int)(sizeof osc_expr_funcsym / sizeof *osc_expr_funcsym))
#ifndef LMAX
#define LMAX 4
#endif
/* the function found for any string is the one of that name */
void h_lookup(void){
  int n = in_pick(0, LMAX); char *s = malloc(n + 1); for(int i = 0; i < n; i++){ s[i] = (char)in_u8(); ASSUME(s[i]); } s[n] = 0; long live0 = vh_live();
  t_osc_expr_rec *r = osc_expr_lookupFunction(s); if(r){ const char *q = osc_expr_rec_getName(r); CHECK(q && (int)strlen(q) == n && vh_same(q, s, n), "the name of the function found is the string"); REACH("found"); }
  else { for(int i = 0; i < NFT; i++) if((int)strlen(FT[i].n) == n) CHECK(!vh_same(FT[i].n, s, n), "every function of the language is found"); t_osc_bndl_u *b = NULL; CHECK(osc_expr_getDocForFunction(s, &b) == OSC_ERR_EXPR_FUNCTIONNOTFOUND && !b, "there is no documentation of an unknown function"); REACH("unknown"); }
  CHECK(vh_live() == live0, "no heap block is left");
}
static const char *ARGT[] = { "number", "list", "string", "atom", "expression", "OSC address", "boolean", "function", "timetag" };
static int typestext(int t, char *b){ int l = 0; *b = 0; for(int i = 0; i < 9; i++) if(t >> i & 1) l += sprintf(b + l, "%s%s", l ? ", " : "", ARGT[i]); return l; }
void h_types(void){ int t = (int)in_u16(); ASSUME(t < 512); static char want[256], got[256]; memset(got, 'x', sizeof got); osc_expr_formatTypes(t, got); typestext(t, want); CHECK(!strcmp(got, want), "the text names the types of the argument"); REACH("done"); }
static void msg1(t_osc_bndl_u *b, int *seen, const char *addr, int n, const char **s, const int *iv){
  t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(b, addr, 1); CHECK(ar && osc_message_array_u_getLen(ar) == 1, "one message of the documentation has the address"); t_osc_msg_u *m = osc_message_array_u_get(ar, 0); CHECK(osc_message_u_getArgCount(m) == n, "number of values");
  for(int i = 0; i < n; i++){ t_osc_atom_u *a = osc_message_u_getArg(m, i); if(iv) CHECK(osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == iv[i], "number in the documentation"); else CHECK(osc_atom_u_getTypetag(a) == 's' && !strcmp(osc_atom_u_getStringPtr(a), s[i]), "text in the documentation"); }
  osc_message_array_u_free(ar); ++*seen;
}
/* every function has its arity, and its documentation says what its record says */
void h_doc(void){
  int k = in_pick(0, NFT - 1); t_osc_expr_rec *r = osc_expr_lookupFunction((char *)FT[k].n); CHECK(r, "the function is found"); CHECK(!strcmp(osc_expr_rec_getName(r), FT[k].n), "name"); CHECK(osc_expr_rec_getNumRequiredArgs(r) == FT[k].nr && osc_expr_rec_getNumOptionalArgs(r) == FT[k].no, "number of arguments"); CHECK(osc_expr_rec_getSignature(r) && osc_expr_rec_getDocstring(r) && *osc_expr_rec_getDocstring(r), "signature and description");
  for(const char *p = osc_expr_rec_getSignature(r); *p; p++) if(*p == '$') CHECK(p[1] >= '1' && (FT[k].no < 0 || p[1] <= '0' + FT[k].nr + FT[k].no), "the signature uses the arguments of the function");
  long live0 = vh_live(); t_osc_bndl_u *b = NULL; CHECK(osc_expr_getDocForFunction((char *)FT[k].n, &b) == OSC_ERR_NONE && b, "documentation"); int seen = 0; const char *v[8]; char a[64], ty[160];
  v[0] = FT[k].n; msg1(b, &seen, "/doc/function/name", 1, v, NULL); v[0] = osc_expr_rec_getSignature(r); msg1(b, &seen, "/doc/function/signature", 1, v, NULL); v[0] = osc_expr_rec_getDocstring(r); msg1(b, &seen, "/doc/function/docstring", 1, v, NULL);
  msg1(b, &seen, "/doc/function/num_required_args", 1, NULL, &FT[k].nr); msg1(b, &seen, "/doc/function/num_optional_args", 1, NULL, &FT[k].no);
  for(int o = 0; o < 2; o++) for(int i = 0; i < (o ? FT[k].on : FT[k].rn); i++){ char **nm = o ? osc_expr_rec_getOptionalArgsNames(r) : osc_expr_rec_getRequiredArgsNames(r); int *tt = o ? osc_expr_rec_getOptionalArgsTypes(r) : osc_expr_rec_getRequiredArgsTypes(r); const char *w = o ? "optional" : "required";
    sprintf(a, "/doc/function/arg/%s/name/%d", w, i + 1); v[0] = nm[i]; msg1(b, &seen, a, 1, v, NULL); sprintf(a, "/doc/function/arg/%s/types/%d", w, i + 1); CHECK(typestext(tt[i], ty), "the argument has a type"); v[0] = ty; msg1(b, &seen, a, 1, v, NULL); }
  char **cat = osc_expr_rec_getCategories(r); int n = 0; char all[256]; *all = 0; int l = 0; for(; cat[n]; n++){ v[n] = cat[n]; l += sprintf(all + l, "%s ", cat[n]); } CHECK(!strcmp(all, FT[k].cat), "categories"); msg1(b, &seen, "/doc/function/categories", n, v, NULL);
  CHECK(osc_bundle_u_getMsgCount(b) == seen, "the documentation has nothing else"); osc_bundle_u_free(b); CHECK(vh_live() == live0, "no heap block is left"); CHECK(NF >= NFT, "size of the table"); REACH("done");
}
/* a call with another number of arguments than the function has is refused: by the parser, or, where it cannot see it, by apply() */
void h_arity(void){
  int k = in_pick(0, NFT - 1), how = in_pick(0, 3); const char *fn = FT[k].n; ASSUME(strcmp(fn, "lambda") && strcmp(fn, "quote")); ASSUME((fn[0] >= 'a' && fn[0] <= 'z') || (fn[0] >= 'A' && fn[0] <= 'Z')); int nr = FT[k].nr, no = FT[k].no, c = how == 0 ? nr : how == 3 ? nr + no : how == 1 ? nr - 1 : nr + no + 1; ASSUME(c >= 0 && (no >= 0 || how < 2)); int ap = in_pick(0, 1); if(ap) ASSUME(c > 0 && how % 3);
  char t[256]; int l = sprintf(t, ap ? "apply(%s" : "%s(", fn); for(int i = 0; i < c; i++) l += sprintf(t + l, i || ap ? ", 1" : "1"); sprintf(t + l, ")"); B.n = 0; setup(); t_osc_expr *f = NULL; int r = osc_expr_parser_parseExpr(t, &f, NULL);
  if(how % 3 == 0){ CHECK(!r && f, "a call with the right number of arguments is one"); osc_expr_free(f); REACH("accepted"); return; }
  if(!ap){ CHECK(r, "a call with a wrong number of arguments is refused"); REACH("refused"); return; }
  CHECK(!r && f, "apply() takes any number of arguments"); t_osc_atom_ar_u *o = NULL; r = osc_expr_eval(f, &L, &P, &o, NULL); CHECK(r, "apply() refuses a wrong number of arguments"); CHECK(L == (long)g_enc_bndl(W, &B) && vh_same(P, W, L), "the bundle is unmodified"); if(o) osc_atom_array_u_free(o); osc_expr_free(f); REACH("applied");
}
static int incat(int k, const char *c, int *times){ int n = strlen(c); *times = 0; for(const char *p = FT[k].cat; *p; ){ const char *e = strchr(p, ' '); if(!strncmp(p, c, n) && (p[n] == ' ' || p[n] == '/')) ++*times; p = e + 1; } return *times > 0; }
static const char *CATS[] = { "/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/bitwise", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core", "/math", "/math/operator", "/string" };
#define NCAT 18
static int fnindex(const char *s){ for(int i = 0; i < NFT; i++) if(!strcmp(s, FT[i].n)) return i; return -1; }
void h_cats(void){
  t_osc_bndl_s *c = osc_expr_getCategories(); CHECK(c && c == osc_expr_getCategories(), "the list of categories"); int n = 0, seen[NCAT] = { 0 }; t_osc_bndl_it_s *it = osc_bndl_it_s_get(osc_bundle_s_getLen(c), osc_bundle_s_getPtr(c));
  while(osc_bndl_it_s_hasNext(it)){ t_osc_msg_s *m = osc_bndl_it_s_next(it); char *a = osc_message_s_getAddress(m); CHECK(!strncmp(a, "/doc/category/list", 18), "address of a category"); int i = 0; while(i < NCAT && strcmp(CATS[i], a + 18)) i++; CHECK(i < NCAT && !seen[i], "each category is listed once"); seen[i] = 1; n++; }
  osc_bndl_it_s_destroy(it); CHECK(n == NCAT, "every category is listed");
  for(int k = 0; k < NFT; k++) for(const char *p = FT[k].cat; *p > ' '; p = strchr(p, ' ') + 1){ int i = 0, q = strchr(p, ' ') - p; while(i < NCAT && (strncmp(CATS[i], p, q) || CATS[i][q])) i++; CHECK(i < NCAT, "the categories of every function are listed"); }
  REACH("done");
}
void h_incat(void){
  int c = in_pick(0, (int)(sizeof CATS / sizeof *CATS) - 1); char q[64]; sprintf(q, "%s%s", in_pick(0, 1) ? "/doc/category" : "", CATS[c]); char *qh = g_heap(q, strlen(q) + 1); long len = 77; char *p = (char *)qh; CHECK(osc_expr_getFunctionsForCategory(qh, &len, &p) == OSC_ERR_NONE, "the functions of a category"); free(qh); CHECK(p && len > 16, "there are functions in the category"); static int got[NFT]; memset(got, 0, sizeof got);
  t_osc_bndl_it_s *it = osc_bndl_it_s_get(len, p); while(osc_bndl_it_s_hasNext(it)){ t_osc_msg_s *m = osc_bndl_it_s_next(it); CHECK(osc_message_s_getArgCount(m) == 1, "one name for each function"); t_osc_atom_s *a = NULL; osc_message_s_getArg(m, 0, &a); CHECK(a && osc_atom_s_getTypetag(a) == 's', "the name is a string"); int k = fnindex(osc_atom_s_getData(a)); CHECK(k >= 0, "the name of a function"); got[k]++; osc_atom_s_free(a); }
  osc_bndl_it_s_destroy(it); for(int k = 0; k < NFT; k++){ int t; incat(k, CATS[c], &t); CHECK(got[k] == t, "exactly the functions of the category are listed"); } osc_mem_free(p); REACH("done");
}
void h_anycat(void){
  static const int LN[] = { 0, 1, 2, 13, 14, 100, 115, 127, 128, 300 }; int n = LN[in_pick(0, 9)]; char *q = malloc(n + 1); for(int i = 0; i < n; i++) q[i] = i < 13 ? "/doc/category"[i] : 'a'; if(n && in_pick(0, 1)){ int k = in_pick(0, 1) ? n - 1 : 0; q[k] = (char)in_u8(); ASSUME(q[k]); } q[n] = 0;
  long len = 77; char *p = (char *)q; CHECK(osc_expr_getFunctionsForCategory(q, &len, &p) == OSC_ERR_NONE, "any category is looked up"); long c = 0; if(p){ CHECK(!osc_bundle_s_getMsgCount(len, p, &c) && c >= 0, "the functions found are a bundle"); osc_mem_free(p); } else CHECK(len == 0, "no functions have no length"); if(c) REACH("some"); else REACH("none"); free(q);
}
/* ---- E12 */
#ifndef LONGN
#define LONGN 12
#endif
#ifndef DEEP
#define DEEP 1
#endif
static t_osc_expr_arg *arg(char *w, int *l, int depth);
static char TOK[2048];
/* an expression built from its parts, with the text it stands for */
static t_osc_expr *tree(char *w, int *l, int depth){
  static const char *FN[] = { "add", "sin", "list" }; t_osc_expr *e = osc_expr_alloc(); const char *fn = FN[depth]; osc_expr_setRec(e, osc_expr_lookupFunction((char *)fn)); int n = in_pick(0, depth ? DEEP : NA); static char part[3][4][600]; int order[4], cnt = 0, len[4];
  for(int i = 0; i < n; i++){ len[i] = 0; part[depth][i][0] = 0; t_osc_expr_arg *a = arg(part[depth][i], &len[i], depth); int op = in_pick(0, cnt ? 1 : 2); if(op == 0){ osc_expr_appendArg(e, a); order[cnt++] = i; } else if(op == 1){ osc_expr_prependArg(e, a); for(int j = cnt; j; j--) order[j] = order[j - 1]; order[0] = i; cnt++; } else { osc_expr_setArg(e, a); order[cnt++] = i; } }
  CHECK(osc_expr_getArgCount(e) == n, "number of arguments"); *l += sprintf(w + *l, "( %s ", fn); for(int i = 0; i < n; i++) *l += sprintf(w + *l, "%s", part[depth][order[i]]); *l += sprintf(w + *l, ") "); return e;
}
static t_osc_expr_arg *arg(char *w, int *l, int depth){
  t_osc_expr_arg *a = osc_expr_arg_alloc(); int k = in_pick(0, depth < 2 ? 4 : 2);
  switch(k){
  case 0: { static const int V[] = { 0, -7, INT32_MAX }; int v = V[depth ? depth : in_pick(0, 2)]; t_osc_atom_u *x = osc_atom_u_alloc(); osc_atom_u_setInt32(x, v); osc_expr_arg_setOSCAtom(a, x); CHECK(osc_expr_arg_getOSCAtom(a) == x && !osc_expr_arg_getExpr(a) && !osc_expr_arg_getOSCAddress(a) && !osc_expr_arg_getFunction(a), "the argument is the atom"); *l += sprintf(w + *l, "%d ", v); break; }
  case 1: { int n = depth || in_pick(0, 1) ? 2 : LONGN; char *s = osc_mem_alloc(n + 1); memset(s, 'a', n); s[0] = '/'; s[n] = 0; if(n == 2){ s[1] = 'b'; } osc_expr_arg_setOSCAddress(a, s); CHECK(osc_expr_arg_getOSCAddress(a) == s && !osc_expr_arg_getOSCAtom(a), "the argument is the address"); *l += sprintf(w + *l, "%s ", s); break; }
  case 2: { int n = depth ? 2 : in_pick(0, 2); t_osc_atom_ar_u *r = osc_atom_array_u_alloc(n); for(int i = 0; i < n; i++){ osc_atom_u_setInt32(osc_atom_array_u_get(r, i), i + 5); *l += sprintf(w + *l, "%d ", i + 5); } osc_expr_arg_setList(a, r); break; }
  case 3: { t_osc_expr *e = tree(w, l, depth + 1); osc_expr_arg_setExpr(a, e); CHECK(osc_expr_arg_getExpr(a) == e && !osc_expr_arg_getOSCAddress(a), "the argument is the expression"); break; }
  case 4: { int n = in_pick(0, 2); static char *nm[] = { "x", "yy" }; static int ty[] = { OSC_EXPR_ARG_TYPE_NUMBER, OSC_EXPR_ARG_TYPE_STRING }; t_osc_expr_rec *r = osc_expr_rec_alloc(); osc_expr_rec_setName(r, "lambda"); osc_expr_rec_setRequiredArgs(r, n, nm, ty); *l += sprintf(w + *l, "( lambda ( "); for(int i = 0; i < n; i++) *l += sprintf(w + *l, "%s ", nm[i]); *l += sprintf(w + *l, ") "); osc_expr_rec_setExtra(r, tree(w, l, depth + 1)); *l += sprintf(w + *l, ") "); osc_expr_arg_setFunction(a, r); CHECK(osc_expr_arg_getFunction(a) == r && osc_expr_rec_getNumRequiredArgs(r) == n, "the argument is the function"); break; }
  }
  return a;
}
static int tokens(const char *p, char *o){ int l = 0; while(*p){ if(*p == ' ' || *p == '\n' || *p == ',') p++; else if(*p == '(' || *p == ')') l += sprintf(o + l, "%c ", *p++); else { while(*p && !strchr(" \n,()", *p)) o[l++] = *p++; o[l++] = ' '; } } o[l] = 0; return l; }
static void fmt(t_osc_expr *e, const char *w){
  static char t[4096]; char *f = NULL; long n = -1; osc_expr_format(e, &n, &f); CHECK(f && (long)strlen(f) == n, "the length of the text"); tokens(f, t); CHECK(!strcmp(t, w), "the text of the expression names its parts in order"); osc_mem_free(f);
  f = osc_mem_alloc(1); n = -1; osc_expr_format(e, &n, &f); tokens(f, t); CHECK((long)strlen(f) == n && !strcmp(t, w), "the same text in a given buffer"); osc_mem_free(f);
}
void h_tree(void){
  osc_error_setHandler(quiet); static char w[8192]; int l = 0; long live0 = vh_live(); t_osc_expr *e = tree(w, &l, 0), *c = NULL; fmt(e, w); long l1 = vh_live(); osc_expr_copy(&c, e); CHECK(c && c != e, "the copy is another expression"); CHECK(vh_live() - l1 > 0, "the copy has its own parts"); CHECK(osc_expr_getArgCount(c) == osc_expr_getArgCount(e), "the copy has as many arguments");
  osc_expr_free(e); fmt(c, w); osc_expr_free(c); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* several expressions, several arguments at once */
void h_linked(void){
  long live0 = vh_live(); static char w[2048]; int l = 0; t_osc_expr *e = NULL; int n = in_pick(1, 3); for(int i = 0; i < n; i++){ t_osc_expr *x = osc_expr_alloc(); osc_expr_setRec(x, osc_expr_lookupFunction("list")); int k = in_pick(0, 3); l += sprintf(w + l, "( list "); t_osc_expr_arg *a[5]; int m = 0; t_osc_expr_arg *first = NULL; int pre = in_pick(0, 2); int at[5], na = 0;
    if(pre){ a[m] = osc_expr_arg_alloc(); t_osc_atom_u *q = osc_atom_u_alloc(); osc_atom_u_setInt32(q, 9); osc_expr_arg_setOSCAtom(a[m], q); osc_expr_setArg(x, a[m]); m++; }
    for(int j = 0; j < k; j++){ t_osc_expr_arg *y = osc_expr_arg_alloc(); t_osc_atom_u *q = osc_atom_u_alloc(); osc_atom_u_setInt32(q, j); osc_expr_arg_setOSCAtom(y, q); if(first) CHECK(osc_expr_arg_append(first, y) == j, "appending to a list of arguments counts them"); else first = y; }
    if(pre == 1){ l += sprintf(w + l, "9 "); } if(first){ if(pre == 2) osc_expr_prependArg(x, first); else if(pre == 1) osc_expr_appendArg(x, first); else if(in_pick(0, 1)) osc_expr_appendArg(x, first); else osc_expr_prependArg(x, first); } for(int j = 0; j < k; j++) l += sprintf(w + l, "%d ", j); if(pre == 2) l += sprintf(w + l, "9 "); l += sprintf(w + l, ") "); (void)at; (void)na;
    CHECK(osc_expr_getArgCount(x) == k + (pre > 0), "number of arguments"); int cnt = 0; for(t_osc_expr_arg *y = osc_expr_getArgs(x); y; y = osc_expr_arg_next(y)) cnt++; CHECK(cnt == k + (pre > 0), "the arguments are linked"); if(e) osc_expr_appendExpr(e, x); else e = x; }
  fmt(e, w); t_osc_expr *c = NULL; osc_expr_copyAllLinked(&c, e); int cnt = 0; for(t_osc_expr *y = c; y; y = osc_expr_next(y)) cnt++; CHECK(cnt == n, "every expression is copied"); osc_expr_free(e); fmt(c, w); osc_expr_free(c); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* texts: what is parsed is what is shown */
void h_shown(void){
  static const char *T[][2] = { { "/a + 1", "( + /a 1 ) " }, { "1 + 2 * /b", "( + 1 ( * 2 /b ) ) " }, { "sin(/x)", "( sin /x ) " }, { "pi()", "( pi ) " }, { "map(lambda([x, y], add(x, y)), /a, /b)", "( map ( lambda ( x y ) ( add \"x\" \"y\" ) ) /a /b ) " }, { "/a[[2]]", "( nth /a 2 ) " }, { "/a + 1, /b - 2, sin(/c)", "( + /a 1 ) ( - /b 2 ) ( sin /c ) " }, { "apply(lambda([], 1 + 2), 3)", "( apply ( lambda ( ) ( + 1 2 ) ) 3 ) " }, { "[1, \"two\", /three]", "( list 1 \"two\" /three ) " }, { "if(/a < 2, /b, \"s\")", "( if ( < /a 2 ) /b \"s\" ) " } };
  osc_error_setHandler(quiet); int k = in_pick(0, 9); long live0 = vh_live(); char *t = g_heap(T[k][0], strlen(T[k][0]) + 1); t_osc_expr *f = NULL; CHECK(!osc_expr_parser_parseExpr(t, &f, NULL) && f, "the text parses"); free(t);
#ifdef VERB
  { char *s = NULL; long n; osc_expr_format(f, &n, &s); fprintf(stderr, "%s -> %s\n", T[k][0], s); free(s); }
#endif
  fmt(f, T[k][1]); osc_expr_free(f); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* lexical environments are maps */
#ifndef NB
#define NB 3
#endif
static void envis(t_osc_expr_lexenv *e, const int32_t *v, const int *b){ static char *nm[] = { "x", "y", "xx" }; for(int i = 0; i < 3; i++){ char *q = g_heap(nm[i], strlen(nm[i]) + 1); t_osc_atom_ar_u *r = osc_expr_lookupBindingInLexenv(e, q); free(q); CHECK(!!r == b[i], "a name is bound or not"); if(r) CHECK(osc_atom_array_u_getLen(r) == 1 && osc_atom_u_getInt32(osc_atom_array_u_get(r, 0)) == v[i], "a name has the value last bound"); } }
static void bind(t_osc_expr_lexenv *e, int32_t *v, int *b, int i, int32_t x){ static char *nm[] = { "x", "y", "xx" }; char *q = g_heap(nm[i], strlen(nm[i]) + 1); t_osc_atom_ar_u *r = osc_atom_array_u_alloc(1); osc_atom_u_setInt32(osc_atom_array_u_get(r, 0), x); osc_expr_bindVarInLexenv(e, q, r); memset(q, 'z', strlen(q)); free(q); v[i] = x; b[i] = 1; }
void h_lexenv(void){
  long live0 = vh_live(); t_osc_expr_lexenv *e = osc_expr_makeLexenv(), *c = NULL; int32_t v[3] = { 0 }, v2[3]; int b[3] = { 0 }, b2[3]; envis(e, v, b); int n = in_pick(0, NB); for(int i = 0; i < n; i++){ bind(e, v, b, in_pick(0, 2), (int32_t)in_u32()); envis(e, v, b); }
  osc_expr_copyLexenv(&c, e); memcpy(v2, v, sizeof v); memcpy(b2, b, sizeof b); envis(c, v2, b2); bind(c, v2, b2, in_pick(0, 2), 1); bind(e, v, b, in_pick(0, 2), 2); envis(c, v2, b2); envis(e, v, b); osc_expr_destroyLexenv(e); envis(c, v2, b2); osc_expr_destroyLexenv(c); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* an expression evaluated in an environment sees its bindings and leaves them */
void h_evalenv(void){
  static const char *T[] = { "x + 1", "x + y", "apply(lambda([x], x + y), 10)", "x - xx", "/r = x", "map(lambda([a], a + xx), [1, 2])", "x + /a" };
  B.n = 1; mnum(&B.m[0], "/a", 1, "i"); setup(); long live0 = vh_live(); t_osc_expr_lexenv *e = osc_expr_makeLexenv(); int32_t v[3]; int b[3] = { 0 }; for(int i = 0; i < 3; i++) bind(e, v, b, i, (int32_t)in_u32()); int k = in_pick(0, 6); int32_t a = (int32_t)B.m[0].a[0].bits, x = v[0], y = v[1], xx = v[2];
#define P2(p, q) ((int32_t)((uint32_t)(p) + (uint32_t)(q)))
  int32_t w[] = { P2(x, 1), P2(x, y), P2(10, y), (int32_t)((uint32_t)x - (uint32_t)xx), x, P2(1, xx), P2(x, a) };
  char *t = g_heap(T[k], strlen(T[k]) + 1); t_osc_expr *f = NULL; CHECK(!osc_expr_parser_parseExpr(t, &f, NULL) && f, "the text parses"); free(t); t_osc_atom_ar_u *out = NULL; CHECK(!osc_expr_evalInLexEnv(f, e, &L, &P, &out, NULL), "the expression has a value"); osc_expr_free(f);
  CHECK(out && osc_atom_array_u_getLen(out) == 1 + (k == 5) && osc_atom_u_getTypetag(osc_atom_array_u_get(out, 0)) == 'i' && osc_atom_u_getInt32(osc_atom_array_u_get(out, 0)) == w[k], "the value with the bindings of the environment"); if(k == 5) CHECK(osc_atom_u_getInt32(osc_atom_array_u_get(out, 1)) == P2(2, xx), "the second value");
  if(k == 4) expect("/r", out, 1, &(g_arg){ .tt = 'i', .bits = (uint32_t)x }); else holds_bytes(&B, "the bundle is unchanged"); envis(e, v, b); osc_atom_array_u_free(out); osc_expr_destroyLexenv(e); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
