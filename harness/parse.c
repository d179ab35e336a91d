#include "expr.h"
#ifndef PL
#define PL 3
#endif
static void parse(const char *text, int n){
  char *t = malloc(n + 1); memcpy(t, text, n); t[n] = 0; t_osc_expr *f = NULL; long live0 = vh_live(); osc_error_setHandler(quiet); int r = osc_expr_parser_parseExpr(t, &f, NULL);
  if(r) REACH("error"); else REACH("parsed");
  if(f) osc_expr_free(f); CHECK(r || vh_live() == live0, "an expression that was freed leaves no heap block"); free(t);
}
/* any text */
void h_parse_any(void){ char t[PL + 1]; int n = in_pick(0, PL); for(int i = 0; i < n; i++){ t[i] = in_u8(); ASSUME(t[i]); } parse(t, n); }
/* any sequence of tokens */
static const char *TOK[] = { "/a", "b", "1", "\"s\"", "'c'", "+", "=", "[", "]", "[[", "]]", "(", ")", "{", "}", ":", ",", "?", "\?\?", "\?\?=", "!", "-", "++", ".", "`", "lambda", "quote(", "nth", "+=", "==", "&&", ";", "0x1", "list(", "value(" };
#define NTOK_ ((int)(sizeof TOK / sizeof *TOK))
#ifndef NT
#define NT 3
#endif
void h_parse_tokens(void){
  char t[128]; int n = in_pick(0, NT), l = 0; for(int i = 0; i < n; i++){ int k = in_pick(0, NTOK_ - 1); int q = strlen(TOK[k]); memcpy(t + l, TOK[k], q); l += q; t[l++] = ' '; }
  parse(t, l);
}
VH_MAIN
