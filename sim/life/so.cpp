// The part of the simulated process that lives in a shared library together
// with the library under test: calls from its constructors and destructors.
#include "life.h"
#include "common.inc"

static void block(int ph) {
   LFile* l = life();
   int b = l->fixed[ph];
   if (b <= 0) return;
   for (int i = 0; i < l->blocks[b].count; i++) {
      int a = l->blocks[b].first + i;
      if (l->acts[a].kind == A_CALL) life_call(api_c, api_c_len, api_cpp, l->acts[a].a, ph, a);
   }
}

extern "C" __attribute__((visibility("default"))) void life_so_call(int call, int where, int act) {
   life_call(api_c, api_c_len, api_cpp, call, where, act);
}

__attribute__((constructor(101))) static void so_ctor() { block(PH_SO_CTOR); }
__attribute__((destructor(101))) static void so_dtor() { block(PH_SO_DTOR); }
struct SoStatic {
   SoStatic() { block(PH_SO_STATIC); }
   ~SoStatic() { block(PH_SO_STATIC_DTOR); }
};
static SoStatic so_static;
