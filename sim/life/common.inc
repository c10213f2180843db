// one call of the library, logged; used by the driver and by the shared library
#include <fenv.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static LFile* L;       // all data of the process is zero-initialised: nothing depends on constructors

static LFile* life() {
   if (!L) {
      void* p = mmap(nullptr, sizeof(LFile), PROT_READ | PROT_WRITE, MAP_SHARED, LIFE_FD, 0);
      if (p == MAP_FAILED) _exit(97);
      L = static_cast<LFile*>(p);
   }
   return L;
}

static void life_call(const api_fn* c, int nc, const api_fn* cpp, int call, int where, int act) {
   LFile* l = life();
   const LCall& k = l->calls[call];
   const api_fn* f = k.fn < nc ? &c[k.fn] : &cpp[k.fn - nc];
   int r = __atomic_fetch_add(const_cast<int*>(&l->nrec), 1, __ATOMIC_SEQ_CST);
   if (r >= LMAXREC) _exit(96);
   LRec& rec = l->rec[r];
   rec.where = where; rec.act = act; rec.call = call; rec.pid = getpid() == l->mainpid ? 0 : 1; rec.state = 1;
   unsigned char arg[32] __attribute__((aligned(16))), res[32] __attribute__((aligned(16)));
   memcpy(arg, k.arg, 32); memset(res, 0, 32);
   unsigned csr = __builtin_ia32_stmxcsr();
   static const int rms[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
   int old = fegetround();
   fesetround(rms[k.rm]);
   if (k.ftz) __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() | (k.ftz & 1 ? 0x8000u : 0u) | (k.ftz & 2 ? 0x40u : 0u));
   f->call(k.n, arg, res);
   fesetround(old);
   __builtin_ia32_ldmxcsr(csr);
   memcpy(rec.res, res, 32);
   rec.state = 2;
   __atomic_fetch_add(const_cast<int*>(&l->phase[where]), 1, __ATOMIC_SEQ_CST);
}
