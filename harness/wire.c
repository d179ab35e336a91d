#include "gen.h"
#ifndef NARGS
#define NARGS 2
#endif
#ifndef TYPES
#define TYPES "ifhdIHcCuUTFNstb"
#endif
static g_msg G;
/* build(m) serialises to exactly the reference encoding; parsing the reference encoding gives m back */
void h_roundtrip(void){
  G.alen = g_addr_chars(G.addr, 1, ADDRMAX, 1);
  G.n = in_pick(0, NARGS); for(int i = 0; i < G.n; i++) g_arg_any(&G.a[i], TYPES);
  unsigned char ref[256]; int n = g_enc_msg(ref, &G);
  long live0 = vh_live();
  t_osc_msg_u *u = g_build(&G);
  CHECK(osc_message_u_getArgCount(u) == G.n, "argument count after appending");
  CHECK(osc_message_u_getSerializedSize(u) == n, "announced serialised size equals the wire size");
  t_osc_msg_s *s = osc_message_u_serialize(u);
  CHECK(osc_message_s_getSize(s) == n - 4, "serialised size field");
  CHECK(vh_same(osc_message_s_getPtr(s), ref, n), "serialised bytes equal the OSC wire format");
  osc_message_s_deepFree(s); osc_message_u_free(u);
  /* the way back, from the reference bytes */
  char *w = malloc(n); memcpy(w, ref, n);
  s = osc_message_s_alloc(); osc_message_s_wrap(s, w);
  CHECK(osc_message_s_getSize(s) == n - 4, "size of a wrapped message");
  CHECK(strcmp(osc_message_s_getAddress(s), G.addr) == 0, "address of a wrapped message");
  CHECK(osc_message_s_getArgCount(s) == G.n, "argument count of a wrapped message");
  t_osc_msg_u *v = osc_message_s_deserialize(s);
  CHECK(strcmp(osc_message_u_getAddress(v), G.addr) == 0, "address after deserialising");
  CHECK(osc_message_u_getArgCount(v) == G.n, "argument count after deserialising");
  for(int i = 0; i < G.n; i++){
    t_osc_atom_s *x = NULL; osc_message_s_getArg(s, i, &x); CHECK(x && g_eq_s(x, &G.a[i]), "serialised argument type and value"); osc_atom_s_free(x);
    t_osc_atom_u *y = osc_message_u_getArg(v, i); CHECK(y && g_eq_u(y, &G.a[i]), "deserialised argument type and value");
  }
  t_osc_msg_s *s2 = osc_message_u_serialize(v);
  CHECK(osc_message_s_getSize(s2) == n - 4 && vh_same(osc_message_s_getPtr(s2), ref, n), "serialise(deserialise(bytes)) == bytes");
  osc_message_s_deepFree(s2); osc_message_u_free(v); osc_message_s_deepFree(s);
  CHECK(vh_live() == live0, "no heap block is left after freeing the messages");
  REACH("done");
}
VH_MAIN
