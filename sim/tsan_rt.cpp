// Own runtime for code compiled with -fsanitize=thread and
// -fsanitize-coverage=trace-pc,trace-cmp: every memory access, atomic
// operation and basic block of the library is a step of logical time at which
// the simulator may preempt, interrupt, abandon, stall or fork.
#include "rt.hpp"
#include "disc.hpp"

#define API extern "C" __attribute__((visibility("default"), noinline))

API void __tsan_init() {}
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit() {}
API void __tsan_vptr_update(void** p, void*) { rt_access(p, 8, true); }
API void __tsan_vptr_read(void** p) { rt_access(p, 8, false); }
API void __tsan_read_range(void* p, unsigned long n) { rt_access(p, n, false); }
API void __tsan_write_range(void* p, unsigned long n) { rt_access(p, n, true); }

#define RW(N) \
   API void __tsan_read##N(void* p) { rt_access(p, N, false); } \
   API void __tsan_write##N(void* p) { rt_access(p, N, true); } \
   API void __tsan_unaligned_read##N(void* p) { rt_access(p, N, false); } \
   API void __tsan_unaligned_write##N(void* p) { rt_access(p, N, true); } \
   API void __tsan_volatile_read##N(void* p) { rt_access(p, N, false); } \
   API void __tsan_volatile_write##N(void* p) { rt_access(p, N, true); } \
   API void __tsan_unaligned_volatile_read##N(void* p) { rt_access(p, N, false); } \
   API void __tsan_unaligned_volatile_write##N(void* p) { rt_access(p, N, true); } \
   API void __tsan_read_write##N(void* p) { rt_access(p, N, false); rt_access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)

static inline void atomic_point(const volatile void* p) {
   Frame* f = tf;
   if (!f) return;
   uintptr_t a = (uintptr_t)p;
   if (!(a - f->lo < f->hi - f->lo)) rt_hot(f);
   rt_step();
}

#define ATOMIC(N, T) \
   API T __tsan_atomic##N##_load(const volatile T* p, int) { atomic_point(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
   API void __tsan_atomic##N##_store(volatile T* p, T v, int) { atomic_point(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { atomic_point(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { atomic_point(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
   API int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomic_point(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   API int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomic_point(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   API T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomic_point(p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
API void __tsan_atomic_thread_fence(int) { rt_step(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
API void __tsan_atomic_signal_fence(int) { rt_step(); }

API void __sanitizer_cov_trace_pc() {
   if (disc_on) disc_pc((uintptr_t)__builtin_return_address(0));
   rt_step();
}
API void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), a, b, 1); }
API void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), a, b, 2); }
API void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), (int32_t)a, (int32_t)b, 4); }
API void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), a, b, 8); }
API void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), a, a, 1); }
API void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), a, a, 2); }
API void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), (int32_t)a, (int32_t)a, 4); }
API void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { if (disc_on) disc_cmp((uintptr_t)__builtin_return_address(0), a, a, 8); }
API void __sanitizer_cov_trace_cmpf(float a, float b) { if (disc_on) disc_cmpd((uintptr_t)__builtin_return_address(0), a, b); }
API void __sanitizer_cov_trace_cmpd(double a, double b) { if (disc_on) disc_cmpd((uintptr_t)__builtin_return_address(0), a, b); }
API void __sanitizer_cov_trace_switch(uint64_t, uint64_t* c) { if (disc_on) for (uint64_t i = 0; i < c[0]; i++) disc_cmp((uintptr_t)__builtin_return_address(0), c[2 + i], c[2 + i], 8); }

// block memory operations of the library (renamed in its objects)
API void* sim_memcpy(void* d, const void* s, size_t n) { if (n) { rt_access(s, n, false); rt_access(d, n, true); } return memcpy(d, s, n); }
API void* sim_memmove(void* d, const void* s, size_t n) { if (n) { rt_access(s, n, false); rt_access(d, n, true); } return memmove(d, s, n); }
API void* sim_memset(void* d, int c, size_t n) { if (n) rt_access(d, n, true); return memset(d, c, n); }
