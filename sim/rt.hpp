// Interface between the seams (instrumentation runtime, libm, libc) and the
// executor.
#pragma once
#include <csetjmp>
#include <functional>
#include "core.hpp"

struct SimThread;

// A call of the library in progress.  Nested calls (signal handlers) form a
// stack per thread.
struct Frame {
   u64 steps = 0, next = ~0ull;       // logical time within the call; next step with an event
   u64 hot = 0, nexthot = ~0ull;      // accesses of memory that is neither own stack nor constant
   u64 cap = ~0ull;                   // step bound
   u64 slice = 0;                     // steps since the thread got the baton
   uintptr_t lo = 0, hi = 0;          // own stack of the call
   uintptr_t res = 0;                 // storage of the result (caller's memory)
   u64 amb = 0;                       // ambient seed (clock, environment, heap contents)
   u64 libm = 0;                      // personality of the mathematical library
   u64 libm_calls = 0, allocs = 0, alloc_failed = 0, syscalls = 0, locks = 0;
   int allocmode = 0; u64 allocarg = 0;
   int op = -1;
   Frame* parent = nullptr;
   SimThread* thr = nullptr;
   unsigned mxcsr0 = 0x1f80; unsigned cw0 = 0x37f;
   sigjmp_buf jb;
};

extern __thread Frame* tf __attribute__((tls_model("initial-exec")));
extern uintptr_t args_lo, args_hi;     // storage of the arguments (caller's memory)
extern uintptr_t img_lo, img_hi, rw_lo, rw_hi;  // executable image and its writable part
extern bool profiling; 
extern std::vector<u64>* prof_hot;     // steps of the hot accesses (profiling)

void rt_slow(Frame* f, int byhot);
void rt_badwrite(Frame* f, const void* p, size_t n);
// wait until pred() is true, letting other simulated threads run
void rt_block(const char* what, const std::function<bool()>& pred);

static inline __attribute__((always_inline)) void rt_step() {
   Frame* f = tf;
   if (__builtin_expect(!f, 0)) return;
   if (__builtin_expect(++f->steps >= f->next, 0)) rt_slow(f, 0);
}

static inline __attribute__((always_inline)) void rt_hot(Frame* f) {
   if (++f->hot >= f->nexthot) rt_slow(f, 1);
}

static inline __attribute__((always_inline)) void rt_access(const void* p, size_t n, bool w) {
   Frame* f = tf;
   if (__builtin_expect(!f, 0)) return;
   uintptr_t a = (uintptr_t)p;
   if (a - f->lo < f->hi - f->lo) {}
   else if (a - img_lo < img_hi - img_lo && !(a - rw_lo < rw_hi - rw_lo)) {}
   else if (a - args_lo < args_hi - args_lo) { if (w) rt_badwrite(f, p, n); }
   else if (a >= f->res && a + n <= f->res + 32) {}
   else if (w && (a - f->hi < 2048 || (a + n > f->res - 64 && a < f->res + 96))) rt_badwrite(f, p, n);
   else rt_hot(f);
   if (__builtin_expect(++f->steps >= f->next, 0)) rt_slow(f, 0);
}
