#include "gen.h"
#include "nullt.h"
#include "osc_error.h"
/* X02: calls without an object */
static int quiet(void *context, const char * const s){ return 0; }
static int R;
enum { BASE = __COUNTER__ + 1 };
void h_null(void){
  osc_error_setHandler(quiet); uint64_t V = in_u64(); long live0 = vh_live(); int k = in_pick(0, 7) << 6; k += in_pick(0, 63);
#define CASE(c) case __COUNTER__ - BASE: c; break;
#define Z(c) CASE(R = !(c); CHECK(R, #c " answers nothing"))
#define E(c) CASE(R = !!(c); CHECK(R, #c " answers an error"))
#define W(c) CASE(c)
  switch(k){ NULLCALLS default: return; }
  CHECK(vh_live() == live0, "no heap block is left"); REACH("done");
}
VH_MAIN
