/* The mathematical library as the code under test sees it. */
#define _GNU_SOURCE
#include <complex.h>
#include <math.h>
#include <stdint.h>
#include <string.h>

extern uint64_t rt_libm(void);       /* a step; personality seed, 0: none */

static uint64_t mixm(uint64_t x) {
   x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
   return x;
}
static uint64_t hbits(uint64_t h, const void* p, int n) {
   uint64_t v = 0; uint16_t w = 0;
   memcpy(&v, p, n < 8 ? n : 8);
   if (n == 4) v &= 0x7fffffffu;
   else if (n == 8) v &= 0x7fffffffffffffffull;
   else { memcpy(&w, (const char*)p + 8, 2); w &= 0x7fff; }
   return mixm(mixm(h + v) + w);
}
/* Move r by -1, 0 or +1 units in the last place, by integer arithmetic so
 * that no exception flag is touched.  The choice depends on the seed, the
 * function and the absolute values of the arguments only: the personality is
 * a deterministic function that keeps the symmetries of the original.  Exact
 * results (zero, small integers) and non-finite or subnormal ones stay. */
static int choice(uint64_t h) { h %= 5; return h < 2 ? -1 : h < 3 ? 0 : 1; }

#define PERT(T, S) \
static T pert_##S(T r, uint64_t h) { \
   if (!isfinite(r) || r == 0 || !isnormal(r)) return r; \
   T a = fabs##S(r); \
   if (a <= 1024 && a == (T)(int)a) return r; \
   int k = choice(h); if (!k) return r; \
   uint64_t m = 0; memcpy(&m, &r, sizeof(T) < 8 ? sizeof(T) : 8); \
   uint64_t mant = sizeof(T) == 4 ? 0x7fffff : sizeof(T) == 8 ? 0xfffffffffffffull : 0x7fffffffffffffffull; \
   if ((m & mant) == 0 || (m & mant) == mant) return r; \
   m += k; memcpy(&r, &m, sizeof(T) < 8 ? sizeof(T) : 8); \
   return r; }
PERT(float, f) PERT(double, ) PERT(long double, l)
#define P(T) _Generic((T)0, float: pert_f, double: pert_, long double: pert_l)
#define SZ(T) (sizeof(T) > 8 ? 10 : (int)sizeof(T))

#define SIM1(F, T, ID) T sim_##F(T x) { uint64_t s = rt_libm(); T r = F(x); if (s) r = P(T)(r, hbits(s + ID, &x, SZ(T))); return r; }
#define SIM1X(F, T) T sim_##F(T x) { rt_libm(); return F(x); }
#define SIM2(F, T, ID) T sim_##F(T x, T y) { uint64_t s = rt_libm(); T r = F(x, y); \
   if (s && x != 0 && y != 0) r = P(T)(r, hbits(hbits(s + ID, &x, SZ(T)), &y, SZ(T))); return r; }
#define SIM2X(F, T) T sim_##F(T x, T y) { rt_libm(); return F(x, y); }
#define SIM3X(F, T) T sim_##F(T x, T y, T z) { rt_libm(); return F(x, y, z); }
#define SIMI(F, T, I) T sim_##F(T x, I i) { rt_libm(); return F(x, i); }
#define PC(T, r, h) do { T v_[2]; memcpy(v_, &r, sizeof v_); v_[0] = P(T)(v_[0], h); v_[1] = P(T)(v_[1], mixm(h)); memcpy(&r, v_, sizeof v_); } while (0)
#define HC(T, s, z) ({ T w_[2]; memcpy(w_, &z, sizeof w_); hbits(hbits(s, &w_[0], SZ(T)), &w_[1], SZ(T)); })
#define AX(T, z) ({ T w_[2]; memcpy(w_, &z, sizeof w_); w_[0] == 0 || w_[1] == 0; })
#define SIMC(F, T, ID) T _Complex sim_##F(T _Complex z) { uint64_t s = rt_libm(); T _Complex r = F(z); \
   if (s && !AX(T, z)) { uint64_t h = HC(T, s + ID, z); PC(T, r, h); } return r; }
#define SIMCR(F, T, ID) T sim_##F(T _Complex z) { uint64_t s = rt_libm(); T r = F(z); \
   if (s && !AX(T, z)) r = P(T)(r, HC(T, s + ID, z)); return r; }
#define SIMC2(F, T, ID) T _Complex sim_##F(T _Complex z, T _Complex y) { uint64_t s = rt_libm(); T _Complex r = F(z, y); \
   if (s) { uint64_t h = HC(T, HC(T, s + ID, z), y); PC(T, r, h); } return r; }
#define SIMSC(F, T, IS, IC) void sim_##F(T x, T* sp, T* cp) { uint64_t s = rt_libm(); F(x, sp, cp); \
   if (s) { *sp = P(T)(*sp, hbits(s + IS, &x, SZ(T))); *cp = P(T)(*cp, hbits(s + IC, &x, SZ(T))); } }

#include "libm_seam.inc"
