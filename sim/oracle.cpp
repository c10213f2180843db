// Numerical invariants, checked after every operation in the simulated
// process: binary128 reference model, defined results of special arguments,
// agreement of the replicas, exception flags, reflection symmetries.
#include "exec.hpp"
#include "ref.hpp"
#include <cmath>
#include <cstdio>
#include <quadmath.h>

using ref::q; using ref::cq;

static q eps_of(int prec) { return prec == P_FLOAT ? 1.1920928955078125e-07Q : prec == P_DOUBLE ? 2.220446049250313080847263336181640625e-16Q : 1.08420217248550443400745280086994171e-19Q; }
static std::string qs(q x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.24Qg", x); return b; }
static std::string vs(const api_fn& f, const LD v[2]) {
   char b[128];
   if (f.cplx) snprintf(b, sizeof b, "(%.21Lg,%.21Lg)", v[0], v[1]); else snprintf(b, sizeof b, "%.21Lg", v[0]);
   return b;
}

struct Truth { cq v; q cond; };
static Truth truth(const api_fn& f, i64 n, const LD a[2]) {
   Truth t;
   q re = a[0], im = a[1];
   shm->st[ST_REF]++;
   if (f.fam == F_LI) {
      t.v = ref::li(n, {re, f.cplx ? im : 0});
      cq d = ref::li(n - 1, {re, f.cplx ? im : 0});
      t.cond = hypotq(d.re, d.im);
      if (!f.cplx) { t.v.im = 0; t.cond = fabsq(d.re); }
   } else if (f.fam == F_CL) {
      t.v = {ref::cl(n, re), 0};
      t.cond = n == 1 ? fabsq(re / tanq(re / 2)) / 2 : fabsq(re * ref::cl(n - 1, re));
   } else {
      t.v = {ref::sl(n, re), 0};
      t.cond = n == 1 ? fabsq(re) / 2 : fabsq(re * ref::sl(n - 1, re));
   }
   return t;
}

static bool fail(OracleOut& o, int kind, const Call& c, const LD v[2], const std::string& what) {
   o.kind = kind; o.msg = call_str(c) + " = " + vs(fn(c.fn), v) + ": " + what;
   return false;
}

static bool plain_env(const Env& e) { return e.rm == 0 && e.ftz == 0 && e.pc == 0 && e.libm == 0; }

// allowed error of the functions of fixed order and of Cl, Sl in units of
// eps (|F| + |cond|); see properties C09 and C10
static q bound(const api_fn& f, i64 n, const Env& e) {
   bool p = plain_env(e);
   if (f.fam == F_LI) return n <= 3 ? (p ? 32 : 64) : n == 4 && f.prec == P_DOUBLE ? 256 : p ? 64 : 128;
   if (f.fam == F_SL) return n <= 25 ? (p ? 32 : 64) : p ? 8 : 32;
   if (n <= 6) return f.prec == P_DOUBLE ? (p ? 24 : 128) : 512;
   return n <= 12 ? (p ? 256 : 512) : p ? 16 : 64;
}

// natural scale of Li_n(z) for n < -1: the nearest singularity of Li_n(e^w) at w = 0 is |n|!/(-w)^(|n|+1);
// small z: sum of the moduli of the terms of the power series
static q neg_scale(i64 n, const LD a[2], q lz) {
   q m = hypotq(a[0], a[1]);
   if (n >= -10 && m <= 0.55Q) return ref::li(n, {m, 0}).re;
   q r = 1 / lz;
   for (i64 k = 1; k <= -n; k++) r *= k / lz;
   if (n < -10 && m <= 0.55Q) r = fminq(r, ref::li(n, {m, 0}).re);
   if (n < -10 && m >= 1 / 0.55Q) r = fminq(r, ref::li(n, {1 / m, 0}).re);
   return r;
}

static bool subnormal(int prec, LD x) {
   LD m = prec == P_FLOAT ? 0x1p-126L : prec == P_DOUBLE ? 0x1p-1022L : 0x1p-16382L;
   return x != 0 && fabsl(x) < m;
}

static bool check_accuracy(const Call& c, const LD v[2], OracleOut& o) {
   const api_fn& f = fn(c.fn);
   if (c.env.ftz && (subnormal(f.prec, c.a[0]) || subnormal(f.prec, c.a[1]))) { shm->st[ST_SKIP]++; return true; }
   i64 n = order_of(c);
   // (a component of) 1/z may be flushed to zero
   if (c.env.ftz && f.fam == F_LI && n < -1 && hypotl(c.a[0], c.a[1]) > 1e290L) { shm->st[ST_SKIP]++; return true; }
   if (f.fam != F_LI && fabsl(c.a[0]) > 1e12L) {      // a rounding error of the angle changes the value: it must only stay in range
      q lo, hi = n == 1 ? (f.fam == F_CL ? 12000 : M_PI_2q) : ref::li(n, {1, 0}).re, w = 1 + 512 * eps_of(f.prec);
      lo = f.fam == F_CL && n == 1 ? -M_LN2q : -hi;
      if (f.fam == F_CL && n == 1 && std::isinf(v[0]) && v[0] > 0) return true;
      if (!(v[0] >= lo * w && v[0] <= hi * w)) return fail(o, V_ACCURACY, c, v, "must be in [" + qs(lo) + "," + qs(hi) + "]");
      return true;
   }
   Truth t = truth(f, n, c.a);
   q scale = hypotq(t.v.re, t.v.im) + t.cond, K;
   if (!finiteq(scale)) { shm->st[ST_SKIP]++; return true; }
   if (f.fam == F_LI && general(f)) {
      bool d = plain_env(c.env);
      q m = hypotq(c.a[0], c.a[1]);
      if (n >= 7) K = m < 0.74Q ? (d ? 16 : 32) : m < 30 ? (d ? 32 : 192) : d ? 48 + fminq(n, logq(m)) : 256 + 3 * fminq(n, logq(m));
      else if (n >= 1) K = n <= 3 ? 64 : n == 4 ? 256 : 128;
      else {
         q lz = hypotq(logq(m), atan2q(c.a[1], c.a[0]));
         scale = hypotq(t.v.re, t.v.im) + (n >= -1 ? 0 : neg_scale(n, c.a, lz));
         K = n >= -1 ? 16 : (d ? 128 - 4 * n : 256 - 32 * n) + (lz > 3 ? (d ? 4 : 16) * lz : 0) + (lz < 1 ? (d ? -1 : -4) * (1 - n) * logq(lz) : 0);
      }
      if (n < -1 && c.env.rm == 0 && hypotq(t.v.re, t.v.im) >= 1e310Q && std::isfinite(v[0]) && std::isfinite(v[1]) && hypotl(v[0], v[1]) < 1e300L)
         return fail(o, V_ACCURACY, c, v, "must overflow, exact value (" + qs(t.v.re) + "," + qs(t.v.im) + ")");
      if (!(scale <= 1e290Q)) { shm->st[ST_SKIP]++; return true; }
   } else K = bound(f, n, c.env);
   // no value is promised next to the logarithmic singularity of Cl_1
   if (f.fam == F_CL && n == 1 && K * eps_of(f.prec) * t.cond > fabsq(t.v.re)) { shm->st[ST_SKIP]++; return true; }
   // nor at the jump of Sl_1
   if (f.fam == F_SL && n == 1) {
      q pi2 = 2 * M_PIq, k = rintq(c.a[0] / pi2);
      if (k != 0 && fabsq(c.a[0] - k * pi2) <= 16 * eps_of(f.prec) * fabsq(c.a[0])) { shm->st[ST_SKIP]++; return true; }
   }
   q err = hypotq((q)v[0] - t.v.re, f.cplx ? (q)v[1] - t.v.im : 0);
   q tol = K * eps_of(f.prec) * scale;
   // results below the smallest normal number cannot have relative accuracy
   q tiny = f.prec == P_FLOAT ? 1e-37Q : f.prec == P_DOUBLE ? 1e-307Q : 1e-4930Q;
   if (!c.env.ftz) tiny = (f.fam != F_LI ? 1000 : n < -1 ? 100 : 8) * (f.prec == P_FLOAT ? 1.5e-45Q : f.prec == P_DOUBLE ? 5e-324Q : 4e-4951Q);
   double rel = std::isfinite(v[0]) && std::isfinite(v[1]) ? (double)(err / (eps_of(f.prec) * scale + tiny)) : 1e99;
   if (rel > shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)]) shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)] = rel;
   if (!(err <= tol + tiny)) {
      char b[200]; snprintf(b, sizeof b, ", error %.3g units (allowed %.0f)", rel, (double)K);
      return fail(o, V_ACCURACY, c, v, "exact value (" + qs(t.v.re) + "," + qs(t.v.im) + ")" + b);
   }
   if (f.fam == F_LI && f.cplx && c.a[1] == 0 && c.a[0] > 1 && !general(f) && v[1] > 0)
      return fail(o, V_ACCURACY, c, v, "wrong side of the branch cut");
   return true;
}

static bool check_special(const Call& c, const LD v[2], OracleOut& o) {
   const api_fn& f = fn(c.fn);
   i64 n = order_of(c);
   bool an = std::isnan(c.a[0]) || (f.cplx && std::isnan(c.a[1]));
   bool ai = std::isinf(c.a[0]) || (f.cplx && std::isinf(c.a[1]));
   bool rn = std::isnan(v[0]) || (f.cplx && std::isnan(v[1]));
   bool rf = std::isfinite(v[0]) && (!f.cplx || std::isfinite(v[1]));
   if (f.fam != F_LI) {
      if ((an || ai || n < 1) && !rn) return fail(o, V_SPECIAL, c, v, "must be NaN");
      if (an || ai || n < 1) return true;
      bool odd = n & 1;
      if (c.a[0] == 0 && odd == (f.fam == F_SL)) {
         if (v[0] != 0 || std::signbit(v[0]) != std::signbit(c.a[0])) return fail(o, V_SPECIAL, c, v, "must be the zero given as argument");
      }
      if (f.fam == F_CL && n == 1 && c.a[0] == 0 && !std::isinf(v[0])) return fail(o, V_SPECIAL, c, v, "must be infinite");
      return true;
   }
   if (an && !rn) return fail(o, V_SPECIAL, c, v, "must be NaN");
   if (an) return true;
   if (ai && rf) return fail(o, V_SPECIAL, c, v, "must not be finite");
   if (ai) return true;
   if (c.a[0] == 0 && (!f.cplx || c.a[1] == 0)) {
      for (int i = 0; i < (f.cplx ? 2 : 1); i++)
         if (v[i] != 0 || std::signbit(v[i]) != std::signbit(c.a[i])) return fail(o, V_SPECIAL, c, v, "must be the zero given as argument");
      return true;
   }
   if ((c.a[0] == 1 || c.a[0] == -1) && (!f.cplx || c.a[1] == 0)) {
      if (c.a[0] == 1 && n <= 1) {
         if (!std::isinf(v[0]) && !(f.cplx && std::isinf(v[1]))) return fail(o, V_SPECIAL, c, v, "must be infinite");
         return true;
      }
      q e = c.a[0] == 1 ? ref::li(n, {1, 0}).re : ref::neg_eta(n);
      if (fabsq(e) >= 1.797e308Q && f.prec != P_LDOUBLE) {      // beyond the range of the type
         if (fabsl(v[0]) < 1e308L || std::isnan(v[0]) || (v[0] > 0) != (e > 0)) return fail(o, V_SPECIAL, c, v, "must overflow");
         return true;
      }
      q err = fabsq((q)v[0] - e);
      double rel = (double)(err / (eps_of(f.prec) * fabsq(e)));
      if (e == 0 ? err != 0 : !(err <= 4 * eps_of(f.prec) * fabsq(e))) {
         char b[160]; snprintf(b, sizeof b, ", error %.3g eps (allowed 4)", rel);
         return fail(o, V_SPECIAL, c, v, "must be " + qs(e) + b);
      }
      if (e != 0 && rel > shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)]) shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)] = rel;
      if (f.cplx && (v[1] != 0 || std::signbit(v[1]) != std::signbit(c.a[1]))) return fail(o, V_SPECIAL, c, v, "the zero imaginary part must keep its sign");
   }
   return true;
}

static bool check_agree(const Call& c, const LD v[2], OracleOut& o) {
   const api_fn& f = fn(c.fn);
   if (c.env.ftz && (subnormal(f.prec, c.a[0]) || subnormal(f.prec, c.a[1]))) { shm->st[ST_SKIP]++; return true; }
   i64 n = order_of(c);
   bool rn = std::isnan(v[0]) || (f.cplx && std::isnan(v[1]));
   Truth t; bool have = false;
   for (int i = 0; i < nfns(); i++) {
      const api_fn& g = fn(i);
      if (i == c.fn || g.fam != f.fam || g.prec != f.prec || g.cplx != f.cplx) continue;
      if (g.order ? g.order != n : n < 2 || n > 6) continue;
      Call d = c; d.fn = i; d.n = g.order ? 0 : n;
      Res r = call_plain(d, nullptr);
      LD w[2]; res_values(g, r, w);
      bool wn = std::isnan(w[0]) || (f.cplx && std::isnan(w[1]));
      bool an = std::isnan(c.a[0]) || (f.cplx && std::isnan(c.a[1]));
      if (an) {
         if (!rn || !wn) return fail(o, V_AGREE, c, v, std::string(g.name) + " = " + vs(g, w) + " for the same NaN argument");
         continue;
      }
      if (!std::isfinite(v[0]) || !std::isfinite(w[0]) || !std::isfinite(v[1]) || !std::isfinite(w[1])) {
         // both must be non-finite in the same way only for ordinary magnitudes
         LD m = f.cplx ? hypotl(c.a[0], c.a[1]) : fabsl(c.a[0]);
         LD hi = f.prec == P_FLOAT ? 3.2e38L : f.prec == P_DOUBLE ? 1.7e308L : 1.1e4932L;
         if (std::isfinite(m) && m < hi && (std::isfinite(v[0]) && std::isfinite(v[1])) != (std::isfinite(w[0]) && std::isfinite(w[1])))
            return fail(o, V_AGREE, c, v, std::string(g.name) + " = " + vs(g, w));
         continue;
      }
      if (v[0] == w[0] && v[1] == w[1]) continue;
      q d2 = hypotq((q)v[0] - w[0], (q)v[1] - w[1]);
      q e = eps_of(f.prec), tiny = f.prec == P_FLOAT ? 1e-37Q : f.prec == P_DOUBLE ? 1e-307Q : 1e-4930Q;
      if (d2 <= 4 * e * hypotq(v[0], v[1]) + tiny) { if (shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)] < 4) shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)] = 4; continue; }
      LD m = f.cplx ? hypotl(c.a[0], c.a[1]) : fabsl(c.a[0]);
      if (f.fam != F_LI && m > 1e15L) continue;      // |x F'| eps exceeds any value
      if (!have) { t = truth(f, n, c.a); have = true; }
      q scale = hypotq(t.v.re, t.v.im) + t.cond;
      double rel = (double)(d2 / (e * scale + tiny));
      if (rel > shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)]) shm->err_fn[c.fn + (plain_env(c.env) ? 128 : 0)] = rel;
      int K = plain_env(c.env) ? 32 : 128;
      if (finiteq(scale) && !(d2 <= K * e * scale + tiny)) {
         char b[100]; snprintf(b, sizeof b, ", difference %.3g units (allowed %d)", rel, K);
         return fail(o, V_AGREE, c, v, std::string(g.name) + " = " + vs(g, w) + b);
      }
   }
   return true;
}

// the value (or an intermediate power of 1/(1 - z)) is near the overflow threshold
bool near_overflow(const Call& c) {
   const api_fn& f = fn(c.fn); i64 n = order_of(c);
   if (f.fam != F_LI || !general(f) || n > 0) return false;
   long double d = hypotl(1 - c.a[0], c.a[1]), m = hypotl(c.a[0], c.a[1]), l = 0;
   if (d == 0 || (2 - n) * -logl(d) > 600) return true;
   // size of the nearest pole (see neg_scale)
   long double w = hypotl(logl(m), atan2l(c.a[1], c.a[0]));
   if (m <= 0.55L) w = std::min(w, -logl(m));
   for (i64 k = 1; k <= -n && l < 1e5L; k++) l += logl(k / w);
   return l - logl(w) > 600;
}

static bool check_flags(const Call& c, const Slot& s, const LD v[2], OracleOut& o) {
   unsigned r = s.raised & (X_INVALID | X_DIVZERO | X_OVERFLOW) & ~0u;
   if (r) {
      std::string m = "raises";
      if (r & X_INVALID) m += " invalid";
      if (r & X_DIVZERO) m += " divide-by-zero";
      if (r & X_OVERFLOW) m += " overflow";
      return fail(o, V_TRAP, c, v, m);
   }
   return true;
}

static bool check_sym(const Call& c, const Res& r0, const LD v[2], OracleOut& o) {
   const api_fn& f = fn(c.fn);
   i64 n = order_of(c);
   if (c.env.rm) return true;
   if (c.env.ftz && (subnormal(f.prec, c.a[0]) || subnormal(f.prec, c.a[1]))) { shm->st[ST_SKIP]++; return true; }
   Call d = c; int sre = 1, sim = 1;
   if (f.fam == F_LI) {
      if (!f.cplx || c.a[1] == 0 || std::isnan(c.a[1])) return true;
      d.a[1] = -c.a[1]; sim = -1;
   } else {
      d.a[0] = -c.a[0];
      bool odd = n & 1;
      sre = (f.fam == F_CL) == odd ? 1 : -1;
      if (c.a[0] == 0 && f.fam == F_CL && odd) sre = 1;
   }
   Res r1 = call_plain(d, nullptr);
   LD w[2]; res_values(f, r1, w);
   const int sg[2] = {sre, sim};
   for (int i = 0; i < (f.cplx ? 2 : 1); i++) if (!std::isfinite(v[i]) && !std::isfinite(w[i])) { shm->st[ST_SKIP]++; return true; }
   Res e; memset(&e, 0, sizeof e);
   for (int i = 0; i < (f.cplx ? 2 : 1); i++) {
      LD x = std::isnan(w[i]) ? w[i] : sg[i] * w[i];
      if (x == 0 && v[i] == 0) x = v[i];       // the sign of a zero result is not part of the symmetry
      if (std::isnan(x)) memset(e.b + 16 * i, 0xff, 10); else memcpy(e.b + 16 * i, &x, 10);
   }
   if (e != r0) return fail(o, V_SYMMETRY, c, v, "but at the reflected argument " + vs(f, w));
   return true;
}

// the real axis (C18): no imaginary part up to the branch point, real part that of the real function, both sides of the axis alike
static bool check_real(const Call& c, const LD v[2], OracleOut& o) {
   const api_fn& f = fn(c.fn);
   i64 n = order_of(c);
   if (f.fam != F_LI || !f.cplx || c.a[1] != 0 || !std::isfinite(c.a[0]) || n < 2 || n > 6) return true;
   if (c.env.ftz && subnormal(f.prec, c.a[0])) { shm->st[ST_SKIP]++; return true; }
   if (f.prec == P_LDOUBLE && n > 2 && c.env.rm) return true;
   if (c.a[0] <= 1 && v[1] != 0) return fail(o, V_REAL, c, v, "must be real");
   for (int i = 0; i < nfns(); i++) {
      const api_fn& g = fn(i);
      if (g.fam != F_LI || g.cplx || g.lang != f.lang || g.prec != f.prec || g.order != n) continue;
      Call d = c; d.fn = i; d.n = 0; d.a[1] = 0;
      LD w[2]; res_values(g, call_plain(d, nullptr), w);
      if (w[0] != v[0]) return fail(o, V_REAL, c, v, std::string("but ") + g.name + " = " + vs(g, w));
   }
   Call d = c; d.a[1] = -c.a[1];
   LD w[2]; res_values(f, call_plain(d, nullptr), w);
   if (w[0] != v[0] || w[1] != v[1]) return fail(o, V_REAL, c, v, "but with the other sign of the zero imaginary part " + vs(f, w));
   return true;
}

bool oracle_check(unsigned ck, const Call& c, const Slot& s, OracleOut& o) {
   LD v[2]; res_values(fn(c.fn), s.res, v);
   if ((ck & CK_FLAGS) && !check_flags(c, s, v, o)) return false;
   if ((ck & CK_SPECIAL) && !check_special(c, v, o)) return false;
   if ((ck & CK_SYM) && !check_sym(c, s.res, v, o)) return false;
   if ((ck & CK_REAL) && !check_real(c, v, o)) return false;
   if ((ck & CK_AGREE) && !check_agree(c, v, o)) return false;
   if ((ck & CK_ACC) && !check_accuracy(c, v, o)) return false;
   return true;
}
