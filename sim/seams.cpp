// Seams of the C library: allocator, locks and once-initialisation, clocks,
// environment variables, entropy, process exit.  Outside of library calls
// (tf == nullptr) they behave as usual.
#include "rt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

__thread Frame* tf __attribute__((tls_model("initial-exec"))) = nullptr;

extern "C" uint64_t rt_libm(void) {
   Frame* f = tf;
   if (!f) return 0;
   f->libm_calls++;
   u64 s = f->libm;
   rt_step();
   return s;
}

// ---- allocator -------------------------------------------------------------
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}

static bool alloc_fails() {
   Frame* f = tf;
   u64 k = ++f->allocs;
   bool fail = false;
   switch (f->allocmode) {
   case 1: fail = true; break;
   case 2: fail = k == f->allocarg; break;
   case 3: fail = mix(f->allocarg, k) & 1; break;
   case 4: fail = k >= f->allocarg; break;
   }
   if (fail) { f->alloc_failed++; errno = ENOMEM; }
   rt_step();
   return fail;
}
static void dirty(void* p, size_t n) {
   // contents of fresh memory are arbitrary
   u64 a = tf ? tf->amb : 0;
   if (!a || !p) return;
   unsigned char* c = (unsigned char*)p;
   for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(mix(a, i >> 3) >> (8 * (i & 7)));
}
extern "C" {
void* malloc(size_t n) { if (tf) { if (alloc_fails()) return nullptr; void* p = __libc_malloc(n); dirty(p, n); return p; } return __libc_malloc(n); }
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) { if (tf && alloc_fails()) return nullptr; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (tf && alloc_fails()) return nullptr; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { if (tf && alloc_fails()) return nullptr; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { if (tf && alloc_fails()) return nullptr; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (tf && alloc_fails()) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}

// ---- locks -------------------------------------------------------------------
template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) static ret (*r_)(__VA_ARGS__) = nullptr; if (!r_) { Frame* f_ = tf; tf = nullptr; r_ = real<ret (*)(__VA_ARGS__)>(name); tf = f_; }
#define HOTPOINT do { tf->locks++; rt_hot(tf); rt_step(); } while (0)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
   REAL(int, "pthread_mutex_lock", pthread_mutex_t*);
   if (!tf) return r_(m);
   HOTPOINT;
   int rc = 0;
   rt_block("mutex", [&] { rc = pthread_mutex_trylock(m); return rc != EBUSY; });
   return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
   REAL(int, "pthread_rwlock_rdlock", pthread_rwlock_t*);
   if (!tf) return r_(m);
   HOTPOINT;
   int rc = 0;
   rt_block("rwlock", [&] { rc = pthread_rwlock_tryrdlock(m); return rc != EBUSY; });
   return rc;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
   REAL(int, "pthread_rwlock_wrlock", pthread_rwlock_t*);
   if (!tf) return r_(m);
   HOTPOINT;
   int rc = 0;
   rt_block("rwlock", [&] { rc = pthread_rwlock_trywrlock(m); return rc != EBUSY; });
   return rc;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
   if (tf) HOTPOINT;
   int rc = 0;
   if (tf) rt_block("spin lock", [&] { rc = pthread_spin_trylock(m); return rc != EBUSY; });
   else while ((rc = pthread_spin_trylock(m)) == EBUSY) sched_yield();
   return rc;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
   int* w = (int*)o;
   if (tf) HOTPOINT;
   if (__atomic_load_n(w, __ATOMIC_SEQ_CST) == 2) return 0;
   int z = 0;
   if (__atomic_compare_exchange_n(w, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
      try { fn(); } catch (...) { __atomic_store_n(w, 0, __ATOMIC_SEQ_CST); throw; }
      __atomic_store_n(w, 2, __ATOMIC_SEQ_CST);
      return 0;
   }
   if (tf) {
      bool redo = false;
      rt_block("once", [&] { int v = __atomic_load_n(w, __ATOMIC_SEQ_CST); redo = v == 0; return v != 1; });
      if (redo) return pthread_once(o, fn);
   } else while (__atomic_load_n(w, __ATOMIC_SEQ_CST) == 1) sched_yield();
   return 0;
}
// guards of function-local statics
int __cxa_guard_acquire(long long* g) {
   unsigned char* b = (unsigned char*)g;
   if (tf) HOTPOINT;
   for (;;) {
      if (__atomic_load_n(b, __ATOMIC_SEQ_CST)) return 0;
      unsigned char z = 0;
      if (__atomic_compare_exchange_n(b + 1, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 1;
      if (tf) rt_block("guard of a local static", [&] { return !__atomic_load_n(b + 1, __ATOMIC_SEQ_CST); });
      else sched_yield();
   }
}
void __cxa_guard_release(long long* g) {
   unsigned char* b = (unsigned char*)g;
   if (tf) HOTPOINT;
   __atomic_store_n(b, 1, __ATOMIC_SEQ_CST); __atomic_store_n(b + 1, 0, __ATOMIC_SEQ_CST);
}
void __cxa_guard_abort(long long* g) { __atomic_store_n((unsigned char*)g + 1, 0, __ATOMIC_SEQ_CST); }
int sched_yield() {
   REAL(int, "sched_yield", void);
   if (!tf) return r_();
   bool first = true;
   rt_step();
   rt_block("yield", [&] { bool x = !first; first = false; return x; });
   return 0;
}

// ---- time, environment, entropy --------------------------------------------------
static void simtime(struct timespec* t) {
   Frame* f = tf;
   u64 a = f->amb ? mix(f->amb, 77) : 1000000000000000ull;
   u64 ns = a % 4000000000000000000ull + f->steps;
   t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000;
   rt_step();
}
int clock_gettime(clockid_t id, struct timespec* t) {
   REAL(int, "clock_gettime", clockid_t, struct timespec*);
   if (!tf) return r_(id, t);
   simtime(t); return 0;
}
int gettimeofday(struct timeval* __restrict t, void* __restrict z) {
   REAL(int, "gettimeofday", struct timeval*, void*);
   if (!tf) return r_(t, z);
   struct timespec s; simtime(&s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) {
   struct timespec s;
   if (tf) simtime(&s); else clock_gettime(CLOCK_REALTIME, &s);
   if (p) *p = s.tv_sec;
   return s.tv_sec;
}
clock_t clock() {
   REAL(clock_t, "clock", void);
   if (!tf) return r_();
   struct timespec s; simtime(&s); return (clock_t)(s.tv_nsec / 1000);
}
static char* simenv(const char* name) {
   static char v[8][8] = {"", "0", "1", "yes", "4", "on", "-1", "1e-3"};
   Frame* f = tf;
   rt_step();
   if (!f->amb) return nullptr;
   u64 h = mix(f->amb, hash_bytes(name, strlen(name), 5)) % 12;
   return h < 8 ? v[h] : nullptr;
}
char* getenv(const char* name) {
   REAL(char*, "getenv", const char*);
   if (!tf) return r_(name);
   return simenv(name);
}
char* secure_getenv(const char* name) {
   REAL(char*, "secure_getenv", const char*);
   if (!tf) return r_(name);
   return simenv(name);
}
ssize_t getrandom(void* p, size_t n, unsigned) {
   u64 a = tf ? tf->amb : 1;
   for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)mix(a, i + 1000);
   return n;
}
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }
}
