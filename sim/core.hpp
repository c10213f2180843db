// Basic types shared by all parts of the simulator
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "api.h"

typedef uint64_t u64;
typedef int64_t i64;
typedef long double LD;

inline u64 mix64(u64 x) {
   x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
   return x;
}
inline u64 mix(u64 a, u64 b) { return mix64(a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull); }

// the one pseudo-random number generator; everything is derived from seeds
struct Rng {
   u64 s;
   explicit Rng(u64 seed) : s(mix64(seed ^ 0x5851f42d4c957f2dull)) {}
   u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
   u64 below(u64 n) { return n ? next() % n : 0; }
   i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
   double uni() { return (double)(next() >> 11) * 0x1p-53; }
   double uni(double a, double b) { return a + (b - a) * uni(); }
   bool chance(double p) { return uni() < p; }
};

// ---- calls -------------------------------------------------------------
struct Env {
   uint8_t rm = 0;     // 0 nearest, 1 down, 2 up, 3 toward zero
   uint8_t ftz = 0;    // bit 0 flush-to-zero, bit 1 denormals-are-zero
   uint8_t pend = 0;   // exception flags pending before the call (x86 bits)
   uint8_t traps = 0;  // unmasked exceptions (x86 bits)
   uint8_t pc = 0;     // x87 precision control: 0 extended, 1 double, 2 single
   u64 libm = 0;       // 0: the real libm, otherwise seed of a last-place personality
   bool operator==(const Env& o) const { return rm == o.rm && ftz == o.ftz && pend == o.pend && traps == o.traps && pc == o.pc && libm == o.libm; }
};

struct Call {
   int fn = 0;
   i64 n = 0;
   LD a[2] = {0, 0};
   Env env;
};

enum { X_INVALID = 1, X_DENORM = 2, X_DIVZERO = 4, X_OVERFLOW = 8, X_UNDERFLOW = 16, X_INEXACT = 32 };

struct Res { unsigned char b[32]; };   // canonical: two 16 byte components
inline bool operator==(const Res& a, const Res& b) { return memcmp(a.b, b.b, 32) == 0; }
inline bool operator!=(const Res& a, const Res& b) { return !(a == b); }

int nfns();
const api_fn& fn(int i);
int fn_index(const std::string& name);
inline bool general(const api_fn& f) { return f.order == 0; }
inline i64 order_of(const Call& c) { return fn(c.fn).order ? fn(c.fn).order : c.n; }

void store_arg(const Call& c, void* p);          // caller's representation
size_t arg_size(const api_fn& f);
Res canon(const api_fn& f, const void* p);       // from the caller's representation
void res_values(const api_fn& f, const Res& r, LD v[2]);
void round_arg(Call& c);                         // round a[] to the precision of the function
std::string res_str(const api_fn& f, const Res& r);
std::string call_str(const Call& c);             // human readable
std::string call_ser(const Call& c);             // exact, one line
bool call_parse(const char* s, Call& c);
bool same_call(const Call& a, const Call& b);    // same function, order, argument bits and environment
u64 hash_bytes(const void* p, size_t n, u64 h);

// ---- argument generation ----------------------------------------------
struct Corpus {
   struct E { Call c; int kind; };               // kind: bit 0 coverage, 1 boundary, 2 steps, 3 shared memory
   std::vector<E> e;
   std::vector<std::vector<int>> by_fn;          // indices per function
   std::vector<std::vector<int>> cov_fn;         // those that reached a new edge of the control flow
   std::vector<int> hot;                         // entries with kind bit 3
   std::vector<double> dict;                     // constants the code compares with
   std::vector<i64> idict;
   void add(const Call& c, int kind);
   bool load(const char* file);
   bool save(const char* file) const;
};
extern Corpus corpus;

enum GenMode { G_ANY, G_FINITE, G_ORDINARY };
struct GenOpt {
   int fn = -1;            // -1: any
   GenMode mode = G_ANY;
   i64 nlo = INT64_MIN, nhi = INT64_MAX;
   double lgmin = 0, lgmax = 0;   // if not equal: bounds of log10|arg|
};
Call gen_call(Rng& r, const GenOpt& o);
LD gen_mod(Rng& r, int prec, double lmin, double lmax);
void mutate_call(Rng& r, Call& c);
bool in_range(const Call& c, const GenOpt& o);
LD ulp_step(int prec, LD x, int k);
