#define G_PAY 128
#define G_MAXARG 10
#include "expr.h"
/* E08: control forms, functions of functions and functions of the bundle */
#ifndef LA
#define LA 2
#endif
static t_osc_atom_ar_u *out; static long live0; static g_arg e[32];
static int run(const char *t){ live0 = vh_live(); return ev(t, &L, &P, &out); }
static void done(void){ if(out) osc_atom_array_u_free(out); out = NULL; CHECK(vh_live() == live0, "no heap block is left"); }
static void val(int n){ CHECK((out ? osc_atom_array_u_getLen(out) : 0) == n, "length of the value"); for(int i = 0; i < n; i++) CHECK(g_eq_u(osc_atom_array_u_get(out, i), &e[i]), "element of the value"); if(out) osc_atom_array_u_free(out); out = NULL; }
static g_arg mk(char t, uint64_t bits){ g_arg a; memset(&a, 0, sizeof a); a.tt = t; a.bits = bits; return a; }
static g_arg str(const char *s){ g_arg a = mk('s', 0); a.len = strlen(s); strcpy((char *)a.b, s); return a; }
static g_arg bnd(const g_bndl *b){ g_arg a = mk('.', 0); a.len = g_enc_bndl(a.b, b); return a; }
static g_msg *mset(const char *ad, int n){ g_msg *m = &B.m[B.n++]; memset(m, 0, sizeof *m); strcpy(m->addr, ad); m->alen = strlen(ad); m->n = n; return m; }
static g_msg *any(const char *ad, int n, const char *types){ g_msg *m = mset(ad, n); mnum(m, ad, n, types); return m; }
/* only the branch selected is evaluated */
void h_if(void){
  int k = in_pick(0, 4); g_msg *t = any("/a", 1, k == 4 ? "TF" : "TFichH"), *x = any("/b", in_pick(0, 2), "isd"), *y = any("/c", in_pick(0, 1), "is"); g_arg T = t->a[0]; int yes = T.tt == 'T' ? 1 : T.tt == 'F' ? 0 : (uint32_t)T.bits != 0; setup(); g_bndl X = B;
  static const char *s[] = { "if(/a, /b, /c)", "if(/a, /q = 7, /r = 8)", "if(/a, /b)", "/b = if(/a, 1, /c)", "if(/a, /no, /c)" }; int r = run(s[k]);
  if(k == 4 && yes){ CHECK(r, "the branch selected is evaluated"); done(); REACH("error"); } else { CHECK(!r, "evaluates"); if(k == 0 || k == 2 || k == 4){ g_msg *m = yes ? x : y; int n = k == 2 && !yes ? 0 : m->n; for(int i = 0; i < n; i++) e[i] = m->a[i]; val(n); }
    else if(k == 1){ e[0] = i32(yes ? 7 : 8); put(&X, yes ? "/q" : "/r", 1, e); val(1); } else { g_arg one = i32(1); put(&X, "/b", yes ? 1 : y->n, yes ? &one : y->a); if(out) osc_atom_array_u_free(out); out = NULL; }
    holds_bytes(&X, "only the branch selected is evaluated"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done"); }
}
/* && and || evaluate their second operand only when the first does not decide */
void h_short(void){
  int k = in_pick(0, 5), or_ = k & 1; g_msg *t = any("/a", 1, "TF"); int a = t->a[0].tt == 'T'; any("/b", 1, "TF"); int b = B.m[1].a[0].tt == 'T'; setup(); g_bndl X = B; static const char *s[] = { "/a && (/q = /b)", "/a || (/q = /b)", "andalso(/a, /q = /b)", "orelse(/a, /q = /b)", "/a && /no", "/a || /no" }; int r = run(s[k]);
  int second = or_ ? !a : a; if(k > 3 && second){ CHECK(r, "the second operand is evaluated"); done(); REACH("error"); return; } CHECK(!r, "evaluates"); int v = second ? b : or_; e[0] = mk(v ? 'T' : 'F', 0); val(1); if(second){ e[0] = B.m[1].a[0]; put(&X, "/q", 1, e); } holds_bytes(&X, "the second operand is evaluated only when needed"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* operators as functions, by name, as a lambda, as a string in the bundle */
static const char OPS[] = "-+*"; static const char *ON[] = { "-", "+", "*" }, *OL[] = { "lambda([x, y], x - y)", "lambda([x, y], x + y)", "lambda([x, y], x * y)" };
static char *fname(int o, int how, char *t){ if(how == 0) sprintf(t, "\"%s\"", ON[o]); else if(how == 1) strcpy(t, OL[o]); else if(how == 2) strcpy(t, "/f"); else sprintf(t, "lambda([y, x], y %s x)", ON[o]); return t; }
static void fmsg(int o, int how){ if(how == 2){ g_msg *m = mset("/f", 1); m->a[0] = str(ON[o]); } }
void h_apply(void){
  int o = in_pick(0, 2), how = in_pick(0, 4); int n = in_pick(1, LA), m = in_pick(1, n == 1 ? 1 : LA); any("/a", n, n + m > 2 ? "i" : "id"); any("/b", m, n + m > 2 ? "i" : "id"); if(how < 4) fmsg(o, how); setup(); char f[64], t[96]; if(how == 4) sprintf(t, "apply(lambda([x], apply(lambda([y], x %s y), /b)), /a)", ON[o]); else sprintf(t, "apply(%s, /a, /b)", fname(o, how, f));
  CHECK(!run(t), "evaluates"); int l = n == 1 ? m : m == 1 ? n : n < m ? n : m; for(int i = 0; i < l; i++) arith(OPS[o], &B.m[0].a[n == 1 ? 0 : i], &B.m[1].a[m == 1 ? 0 : i], &e[i]); val(l); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_map(void){
  int o = in_pick(0, 2), how = in_pick(0, 4), n = in_pick(0, LA + 1), m = in_pick(0, LA + 1); any("/a", n, "i"); any("/b", m, "i"); if(how < 4) fmsg(o, how); setup(); char f[64], t[96]; if(how == 4) strcpy(t, "map(lambda([x], [x, 5]), /a)"); else sprintf(t, "map(%s, /a, /b)", fname(o, how, f)); CHECK(!run(t), "evaluates"); int l = 0; 
  if(how == 4) for(int i = 0; i < n; i++){ e[l++] = B.m[0].a[i]; e[l++] = i32(5); } else for(; l < n && l < m; l++) arith(OPS[o], &B.m[0].a[l], &B.m[1].a[l], &e[l]); val(l); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); if(l) REACH("done"); else REACH("empty");
}
void h_reduce(void){
  int o = in_pick(0, 2), how = in_pick(0, 3), right = in_pick(0, 1), n = in_pick(0, LA + 1), init = in_pick(0, 1); ASSUME(n + init); any("/a", n, "i"); any("/b", 1, "i"); fmsg(o, how); setup(); char f[64], t[96]; sprintf(t, "%creduce(%s, /a%s)", right ? 'r' : 'l', fname(o, how, f), init ? ", /b" : ""); CHECK(!run(t), "evaluates");
  g_arg acc = init ? B.m[1].a[0] : B.m[0].a[right ? n - 1 : 0], r; for(int j = init ? 0 : 1; j < n; j++){ g_arg x = B.m[0].a[right ? n - 1 - j : j]; if(right) arith(OPS[o], &x, &acc, &r); else arith(OPS[o], &acc, &x, &r); acc = r; } e[0] = acc; val(1); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* the parameters of a function hide nothing outside it and are not assigned outside it */
void h_scope(void){
  static const char *s[] = { "apply(lambda([x], apply(lambda([x], x), /b) - x), /a)", "apply(lambda([x], x + /b), /a)", "apply(lambda([x, y], apply(lambda([y], y), x) - y), /b, /a)", "map(lambda([x], lreduce(\"+\", [x, /a])), /b)", "apply(lambda([x], if(x, /q = x, /b)), /a)", "apply(lambda([x], /q = x, /r = x + /b), /a)" }; int k = in_pick(0, 5);
  any("/a", 1, "i"); any("/b", 1, "i"); setup(); g_bndl X = B; g_arg a = B.m[0].a[0], b = B.m[1].a[0]; CHECK(!run(s[k]), "evaluates"); if(k == 0 || k == 2) arith('-', &b, &a, e); else if(k == 1 || k == 3) arith('+', &a, &b, e); else if(k == 4){ int yes = (uint32_t)a.bits != 0; *e = yes ? a : b; if(yes) put(&X, "/q", 1, &a); } else { put(&X, "/q", 1, &a); arith('+', &a, &b, e); put(&X, "/r", 1, e); }
  val(1); holds_bytes(&X, "only addresses are assigned"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* every name of a nested function means its nearest parameter, whatever the names and the order of the arguments */
void h_names(void){
  static const char *VN[] = { "x", "y", "z" }; int p = in_pick(0, 1), r = in_pick(0, 2), s = in_pick(0, 2), u = in_pick(0, 2), v = in_pick(0, 2), w = in_pick(0, 1), mp = in_pick(0, 1); ASSUME(r != s); any("/a", 1, "i"); any("/b", 1, "i"); setup(); char t[160]; static const char *AR[] = { "x", "y", "/a" };
  sprintf(t, "%s(lambda([%s, %s], %s + apply(lambda([%s, %s], %s - %s), %s, %s)), /a, /b)", mp ? "map" : "apply", VN[p], VN[1 - p], VN[w], VN[r], VN[s], VN[r], VN[s], AR[u], AR[v]); CHECK(!run(t), "evaluates");
  g_arg val_[3]; val_[p] = B.m[0].a[0]; val_[1 - p] = B.m[1].a[0]; val_[2] = B.m[0].a[0]; g_arg d; arith('-', &val_[u], &val_[v], &d); arith('+', &val_[w], &d, e); val(1); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* what the bundle holds */
void h_query(void){
  some_bundle(VTYPES); B.tt = in_u64(); int w = in_pick(0, 3); if(w == 2) any("/none/x", 1, "i"); g_msg *q = mset("/z", 1); static const char *ads[] = { "/t", "/s", "/none", "/z" }; q->a[0] = str(ads[w]); setup(); int k = in_pick(0, 10); const char *ad = (char *)q->a[0].b; int i = k == 3 || k == 6 ? find(&B, "/t") : find(&B, ad), n = 1, r;
  static const char *s[] = { "getaddresses()", "getmsgcount()", "gettimetag()", "value(\"/t\")", "bound(/%s)", "exists(/%s)", "exists(\"/t\")", "bound(\"/%s\")", "exists(value(\"/z\"))", "bound(value(\"/z\"))", "emptybundle()" }; char t[40]; sprintf(t, s[k], ad + 1); r = run(t); CHECK(!r, "evaluates");
  switch(k){
  case 0: n = B.n; for(int j = 0; j < n; j++) e[j] = str(B.m[j].addr); break;
  case 1: e[0] = i32(B.n); break;
  case 2: e[0] = mk('t', B.tt); break;
  case 3: n = i < 0 ? 0 : B.m[i].n; for(int j = 0; j < n; j++) e[j] = B.m[i].a[j]; break;
  case 4: case 7: case 9: e[0] = mk(i >= 0 && B.m[i].n ? 'T' : 'F', 0); break;
  case 5: case 6: case 8: e[0] = mk(i >= 0 ? 'T' : 'F', 0); break;
  case 10: e[0] = mk('F', 0); break;
  }
  val(n); holds_bytes(&B, "the bundle is unchanged"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
void h_edit(void){
  some_bundle(VTYPES); B.tt = in_u64(); g_msg *z = mset("/z", 1); z->a[0] = mk('t', in_u64()); setup(); g_bndl X = B; int k = in_pick(0, 9), n = 0, r; static const char *s[] = { "settimetag(/z)", "delete(/t)", "delete(\"/t\")", "delete(/t, /z)", "delete(/t, /s, /tt, /u, /z)", "/x = value(\"/z\")", "progn(delete(/t), /y = 5)", "delete(\"/t\", \"/s\")", "delete(\"/tt\", \"/t\", \"/s\")", "delete(/t, \"/none\", \"/s\")" }; r = run(s[k]); CHECK(!r, "evaluates");
  if(!k) X.tt = z->a[0].bits; if(k >= 1 && k != 5) drop(&X, "/t"); if(k > 6) drop(&X, "/s"); if(k == 8) drop(&X, "/tt"); if(k == 3 || k == 4) drop(&X, "/z"); if(k == 4){ drop(&X, "/s"); drop(&X, "/tt"); drop(&X, "/u"); } if(k == 5){ e[0] = z->a[0]; n = 1; put(&X, "/x", 1, e); } if(k == 6){ e[0] = i32(5); n = 1; put(&X, "/y", 1, e); }
  val(n); holds_bytes(&X, "nothing else changed"); CHECK(vh_live() == live0, "no heap block is left"); if(k == 4){ CHECK(!run("emptybundle()"), "evaluates"); e[0] = mk('T', 0); val(1); REACH("emptied"); } REACH("done");
}
/* members of a bundle inside the bundle */
void h_member(void){
  g_bndl I = { 0 }; static const char *ads[] = { "/x", "/y", "/xx" }; I.n = in_pick(0, 2); for(int i = 0; i < I.n; i++){ g_msg *m = &I.m[i]; strcpy(m->addr, ads[in_pick(0, 2)]); for(int j = 0; j < i; j++) ASSUME(strcmp(I.m[j].addr, m->addr)); m->alen = strlen(m->addr); m->n = in_pick(0, 1); if(m->n) g_arg_any(&m->a[0], "id"); }
  static const char *o[] = { "/t", "/tt" }; int pos = in_pick(0, 1); for(int i = 0; i < 2; i++) if(i == pos){ g_msg *m = mset("/b", 1); m->a[0] = bnd(&I); if(in_pick(0, 1)) m->a[m->n++] = in_pick(0, 1) ? i32(77) : bnd(&I); } else any(o[i], 1, "i"); int k = in_pick(0, 11); if(k == 11){ g_msg *m = mset("/p", 1); m->a[0] = str("/b"); } else if(in_pick(0, 1)) any("/u", 1, "i"); setup(); g_bndl X = B; int x = find(&I, "/x"), n = 1, r; g_arg v[3];
  static const char *s[] = { "/b./x", "/b./x = 5", "/b./x = [1, 2, 3]", "bound(/b./x)", "exists(/b./x)", "getaddresses(/b)", "emptybundle(/b)", "/r = /b./x", "/q./x = 5", "/v = /b, /v./x = 7", "/b./x = 5, /b./y = 6", "/p./x" }; r = run(s[k]); int i = find(&X, "/b");
  switch(k){
  case 0: case 11: if(x < 0){ CHECK(r, "an unbound member is an error"); holds_bytes(&X, "the bundle is unchanged"); if(out) osc_atom_array_u_free(out); REACH("unbound"); return; } n = I.m[x].n; if(n) e[0] = I.m[x].a[0]; break;
  case 1: v[0] = i32(5); put(&I, "/x", 1, v); X.m[i].a[0] = bnd(&I); break;
  case 2: for(int j = 0; j < 3; j++) v[j] = i32(j + 1); put(&I, "/x", 3, v); X.m[i].a[0] = bnd(&I); break;
  case 3: case 4: e[0] = mk(x >= 0 && (k == 4 || I.m[x].n) ? 'T' : 'F', 0); break;
  case 5: n = I.n; for(int j = 0; j < n; j++) e[j] = str(I.m[j].addr); break;
  case 6: e[0] = mk(I.n ? 'F' : 'T', 0); break;
  case 7: if(x < 0){ CHECK(r, "an unbound member is an error"); holds_bytes(&X, "the bundle is unchanged"); if(out) osc_atom_array_u_free(out); return; } put(&X, "/r", I.m[x].n, I.m[x].a); break;
  case 8: I.n = 0; v[0] = i32(5); put(&I, "/x", 1, v); v[0] = bnd(&I); put(&X, "/q", 1, v); break;
  case 9: { int c = X.m[i].n; v[0] = i32(7); put(&I, "/x", 1, v); v[0] = bnd(&I); v[1] = X.m[i].a[1]; put(&X, "/v", c, v); break; }
  case 10: v[0] = i32(5); put(&I, "/x", 1, v); v[0] = i32(6); put(&I, "/y", 1, v); X.m[i].a[0] = bnd(&I); break;
  }
  CHECK(!r, "evaluates"); if(k == 0 || (k >= 3 && k <= 6) || k == 11) val(n); else { if(out) osc_atom_array_u_free(out); out = NULL; } holds_bytes(&X, "exactly the member is changed"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* bundles as values */
void h_bundle(void){
  int n = in_pick(0, 2), k = in_pick(0, 5); any("/a", n, "isd"); any("/b", 1, "i"); setup(); g_bndl X = B, I = { 0 }; static const char *s[] = { "/c = {/x : /a}", "/c = {/x : /a, /y : /b + 1}", "/c = {/x : 1, /y : {/z : /b}}", "/c = {/x : 1, /y : /b}", "/c = {}", "getaddresses({/x : /a, /y : 2})" }; CHECK(!run(s[k]), "evaluates"); g_arg v[3];
  switch(k){
  case 0: put(&I, "/x", n, B.m[0].a); break;
  case 1: put(&I, "/x", n, B.m[0].a); v[0] = i32(1); arith('+', &B.m[1].a[0], &v[0], &v[1]); put(&I, "/y", 1, v + 1); break;
  case 2: { g_bndl Z = { 0 }; put(&Z, "/z", 1, B.m[1].a); v[0] = i32(1); put(&I, "/x", 1, v); v[0] = bnd(&Z); put(&I, "/y", 1, v); break; }
  case 3: v[0] = i32(1); put(&I, "/x", 1, v); put(&I, "/y", 1, B.m[1].a); break;
  }
  if(k == 5){ e[0] = str("/x"); e[1] = str("/y"); val(2); } else { v[0] = bnd(&I); put(&X, "/c", 1, v); if(out) osc_atom_array_u_free(out); } holds_bytes(&X, "the bundle holds the value and nothing else changed"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
/* expressions as texts */
void h_eval(void){
  any("/a", 1, "i"); any("/b", 1, "i"); g_msg *m = mset("/s", 1); int k = in_pick(0, 6), r; static const char *x[] = { "/z = /a - /b", "/z = /a, /b = /z", "/none + 1", "/z = 1, /none, /y = 2" }; int q = in_pick(0, 3); m->a[0] = str(x[q]); setup(); g_bndl X = B; g_arg a = B.m[0].a[0], b = B.m[1].a[0], d; static const char *s[] = { "eval(\"%s\")", "eval(/s)", "eval(quote(%s))", "quote(/a + 1)", "progn(eval(/s), eval(/s))", "eval([\"/z = \", \"/a - /b\"])", "tokenize(\"/a + 1\")" }; char t[64]; sprintf(t, s[k], x[q]); r = run(t); CHECK(!r, "evaluates");
  arith('-', &a, &b, &d); if(k == 5) q = 0; if(k == 3 || k == 6){ if(k == 3){ e[0] = str("/a + 1"); val(1); } else { e[0] = str("/a"); e[1] = str("+"); e[2] = i32(1); val(3); } holds_bytes(&X, "the text is not evaluated"); CHECK(vh_live() == live0, "no heap block is left"); REACH("text"); return; }
  if(q == 0) put(&X, "/z", 1, &d); else if(q == 1){ put(&X, "/z", 1, &a); put(&X, "/b", 1, &a); } else if(q == 3){ d = i32(1); put(&X, "/z", 1, &d); }
  CHECK(out && osc_atom_array_u_getLen(out) == 1, "one value"); int v = osc_atom_u_getInt32(osc_atom_array_u_get(out, 0)); CHECK(!v == (q < 2), "whether the text could be evaluated"); osc_atom_array_u_free(out); holds_bytes(&X, "the text is evaluated"); CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
