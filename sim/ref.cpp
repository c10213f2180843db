#include "ref.hpp"
#include <quadmath.h>
#include <cmath>

namespace ref {
namespace {

const q PI = M_PIq;

cq operator+(cq a, cq b) { return { a.re + b.re, a.im + b.im }; }
cq operator-(cq a) { return { -a.re, -a.im }; }
cq operator-(cq a, cq b) { return { a.re - b.re, a.im - b.im }; }
cq operator*(cq a, cq b) { return { a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re }; }
cq operator*(cq a, q b) { return { a.re*b, a.im*b }; }
q abs(cq a) { return hypotq(a.re, a.im); }
cq inv(cq a)
{
   // scaled, so that huge arguments do not overflow
   const q s = abs(a);
   if (s == 0) { return { HUGE_VALQ, 0 }; }
   const cq b = { a.re/s, a.im/s };
   return { b.re/s, -b.im/s };
}
cq clogq_(cq a)
{
   const q r = abs(a);
   // accurate real part close to |a| = 1
   q lr;
   if (r > q(0.5) && r < q(2)) {
      const q x = a.re > 0 ? a.re - 1 : -a.re - 1;
      lr = log1pq(x*(x + 2) + a.im*a.im)/2;
   } else {
      lr = logq(r);
   }
   return { lr, atan2q(a.im, a.re) };
}
// log(-a) where a is on or off the cut; on the cut (im == 0) Im = +pi
cq pos_log(cq a)
{
   if (a.im == 0) {
      if (a.re > 0) { return { logq(a.re), 0 }; }
      return { logq(-a.re), PI };
   }
   return clogq_(a);
}
cq powi(cq a, int64_t n)
{
   if (n < 0) { return inv(powi(a, -n)); }
   cq r = { 1, 0 };
   while (n) { if (n & 1) { r = r*a; } a = a*a; n >>= 1; }
   return r;
}

// --- integer zeta values ------------------------------------------------

const int NMAX = 1400;
q zpos[NMAX + 2];   // zeta(n), n >= 2
q zneg[NMAX + 2];   // zeta(-m), m >= 0
bool ready = false;

// zeta(n), n >= 2 via Borwein's alternating series (independent of any table)
q zeta_borwein(int n)
{
   if (n > 120) {
      q s = 1;
      for (int k = 2; k <= 6; ++k) { s += powq(k, -n); }
      return s;
   }
   const int N = 50;
   static q d[N + 1];
   static bool init = false;
   if (!init) {
      q sum = 0;
      for (int i = 0; i <= N; ++i) {
         // (N+i-1)! 4^i / ((N-i)! (2i)!)
         q t = 1;
         // compute log-free: product form
         t = expq(lgammaq(q(N + i)) - lgammaq(q(N - i + 1)) - lgammaq(q(2*i + 1)))*powq(4, i);
         sum += roundq(t*N);
         d[i] = sum;
      }
      init = true;
   }
   q s = 0;
   for (int k = 0; k < N; ++k) {
      const q sign = k % 2 ? -1 : 1;
      s += sign*(d[k] - d[N])/powq(k + 1, n);
   }
   return -s/(d[N]*(1 - powq(2, 1 - n)));
}

void setup()
{
   if (ready) { return; }
   for (int n = 2; n <= NMAX + 1; ++n) { zpos[n] = zeta_borwein(n); }
   // better even values: zeta(2), zeta(4) known in closed form
   zneg[0] = -q(0.5);
   // zeta(1-2k) = (-1)^k 2 (2k-1)! zeta(2k) / (2 pi)^(2k)
   q f = 1; // (2k-1)!/(2pi)^(2k)
   f = q(1)/(4*PI*PI);
   for (int k = 1; 2*k - 1 <= NMAX; ++k) {
      if (k > 1) { f *= q(2*k - 1)*q(2*k - 2)/(4*PI*PI); }
      zneg[2*k - 1] = (k % 2 ? -2 : 2)*f*zpos[2*k];
      if (2*k <= NMAX) { zneg[2*k] = 0; }
   }
   ready = true;
}

q zeta(int64_t n)
{
   setup();
   if (n == 1) { return HUGE_VALQ; }
   if (n >= 2) { return n <= NMAX ? zpos[n] : q(1) + (n < 16000 ? powq(2, -q(n)) : q(0)); }
   return -n <= NMAX ? zneg[-n] : q(0)/q(0);
}

// Li_n(-1), n >= 0
q li_m1(int64_t n)
{
   if (n == 0) { return -q(0.5); }
   if (n == 1) { return -M_LN2q; }
   return -(1 - (n < 16000 ? powq(2, 1 - q(n)) : q(0)))*zeta(n);
}

const q EPS = 1e-36Q;

cq series(int64_t n, cq z)
{
   cq sum = { 0, 0 }, p = z;
   for (int k = 1; k < 60000; ++k) {
      const cq t = p*powq(q(k), -q(n));
      sum = sum + t;
      const bool falling = n >= 0 || q(k)*-logq(abs(z)) > -q(n);
      if (falling && fabsq(t.re) <= EPS*fabsq(sum.re) && fabsq(t.im) <= EPS*fabsq(sum.im)) { break; }
      p = p*z;
      if (p.re == 0 && p.im == 0) { break; }
   }
   return sum;
}

// expansion around ln(z) = 0, |ln(z)| < 2pi
cq unity(int64_t n, cq z)
{
   const cq l = clogq_(z);
   cq sum = { 0, 0 }, p = { 1, 0 };
   int quiet = 0;
   for (int64_t k = 0; k < NMAX; ++k) {
      if (k > 0) { p = p*l*(q(1)/q(k)); }
      cq t;
      if (n >= 1 && k == n - 1) {
         q h = 0;
         for (int64_t j = 1; j <= n - 1; ++j) { h += q(1)/q(j); }
         t = p*(cq{ h, 0 } - pos_log(-l));
      } else {
         const q ze = zeta(n - k);
         if (ze == 0) { continue; }
         t = p*ze;
      }
      sum = sum + t;
      quiet = abs(t) <= 1e-37Q*abs(sum) ? quiet + 1 : 0;
      if (quiet > 3 && (n < 0 || n > 100 || k > n + 2)) { break; }
   }
   if (n < 0) {
      // Gamma(1-n) (-l)^(n-1)
      q g = 1;
      for (int64_t k = 2; k <= -n; ++k) { g *= q(k); }
      sum = sum + powi(-l, n - 1)*g;
   }
   return sum;
}

// m! sum_j (2 pi i j - ln z)^(-(m+1)),  for large m
cq lattice(int64_t n, cq z)
{
   const int64_t m = -n;
   const cq l = clogq_(z);
   cq sum = { 0, 0 };
   for (int j = 0; j < 2000; ++j) {
      cq t = powi(cq{ -l.re, 2*PI*j - l.im }, -(m + 1));
      if (j) { t = t + powi(cq{ -l.re, -2*PI*j - l.im }, -(m + 1)); }
      sum = sum + t;
      if (j > 3 && abs(t) < 1e-37Q*abs(sum)) { break; }
   }
   q g = 1;
   for (int64_t k = 2; k <= m; ++k) { g *= q(k); }
   return sum*g;
}

// 2 sum_{k=0}^{floor(n/2)} Li_{2k}(-1) L^(n-2k)/(n-2k)!,  L = ln(-z)
cq inversion_rest(int64_t n, cq z)
{
   const cq L = pos_log(-z);
   cq sum = { 0, 0 }, p = { 1, 0 };
   for (int64_t j = 0; j <= n; ++j) {       // p = L^j/j!
      if (j > 0) { p = p*L*(q(1)/q(j)); }
      if ((n - j) % 2 == 0) { sum = sum + p*li_m1(n - j); }
      if (q(j) > 3*abs(L) + 10 && abs(p) < 1e-40Q*abs(sum)) { break; }
   }
   return sum*q(2);
}

cq li_off_cut(int64_t n, cq z);

} // anonymous namespace

cq li(int64_t n, cq z)
{
   if (isnanq(z.re) || isnanq(z.im)) { return { nanq(""), nanq("") }; }
   if (z.re == 0 && z.im == 0) { return z; }
   const cq one = { 1, 0 };
   if (n == 1) {
      const cq w = one - z;
      if (z.im == 0) {
         if (z.re < 1) { return { -log1pq(-z.re), 0 }; }
         return { -logq(z.re - 1), -PI };
      }
      const q x = -z.re; // |1-z|^2 - 1 = x(x+2) + im^2
      const q az = abs(z);
      const q lr = az < q(0.5) ? log1pq(x*(x + 2) + z.im*z.im)/2 : logq(abs(w));
      return { -lr, -atan2q(w.im, w.re) };
   }
   if (n == 0) { return z*inv(one - z); }
   if (n == -1) { const cq w = inv(one - z); return z*w*w; }

   if (n > 1 && z.re == 1 && z.im == 0) { return { zeta(n), 0 }; }
   if (n > 1 && z.im == 0 && z.re > 1) {
      // on the cut: the imaginary part is known in closed form
      const q l = logq(z.re);
      q im = -PI;
      for (int64_t k = 1; k < n && im != 0; ++k) { im *= l/q(k); }
      return { li_off_cut(n, z).re, im };
   }
   return li_off_cut(n, z);
}

namespace {
cq li_off_cut(int64_t n, cq z)
{
   const q az = abs(z);

   if (n > 1) {
      if (az <= q(0.5)) { return series(n, z); }
      if (az >= q(2)) {
         // Li_n(z) + (-1)^n Li_n(1/z) = rest
         const cq s = series(n, inv(z));
         const cq r = inversion_rest(n, z);
         return n % 2 == 0 ? r - s : r + s;
      }
      cq zz = z;
      cq r = unity(n, zz);
      if (z.im == 0 && z.re < 1) { r.im = 0; }
      return r;
   }

   // n <= -2
   if (az > 1) {
      cq r = li(n, inv(z));
      return n % 2 == 0 ? -r : r;
   }
   const cq l = clogq_(z);
   const q al = abs(l);
   cq r;
   if (n <= -30 && al <= q(20)) { r = lattice(n, z); }
   else if (al < q(3.3)) { r = unity(n, z); }
   else { r = series(n, z); }
   if (z.im == 0) { r.im = 0; }
   return r;
}

// exact reduction of x modulo 2 pi for moderately large x
q reduce(q x)
{
   // 2pi = hi + lo (226 bits)
   const q lo2 = 2*8.67181013012378102479704402604335225e-35Q; // 2*(pi - PIq)
   const q k = rintq(x/(2*PI));
   return (x - k*(2*PI)) - k*lo2;
}
}

q neg_eta(int64_t n)
{
   if (n >= 0) { return li_m1(n); }
   if (n % 2 == 0) { return 0; }
   // -(1 - 2^(1-n)) zeta(n)
   if (-n <= NMAX) { return (powq(2, 1 - q(n)) - 1)*zeta(n); }
   return (1 - n)/2 % 2 ? -HUGE_VALQ : HUGE_VALQ;
}

q cl(int64_t n, q x)
{
   x = reduce(x);
   if (n == 1) {
      return -logq(2*fabsq(sinq(x/2)));
   }
   if (x == 0) { return n % 2 ? zeta(n) : x; }
   // expansion in ln z = i x evaluated via unity() needs z; do it directly
   cq sum = { 0, 0 }, p = { 1, 0 };
   int quiet = 0;
   const cq l = { 0, x };
   for (int64_t k = 0; k < NMAX; ++k) {
      if (k > 0) { p = p*l*(q(1)/q(k)); }
      cq t;
      if (k == n - 1) {
         q h = 0;
         for (int64_t j = 1; j <= n - 1; ++j) { h += q(1)/q(j); }
         const cq lg = { logq(fabsq(x)), x > 0 ? -PI/2 : PI/2 };
         t = p*(cq{ h, 0 } - lg);
      } else {
         const q ze = zeta(n - k);
         if (ze == 0) { continue; }
         t = p*ze;
      }
      sum = sum + t;
      quiet = abs(t) <= 1e-37Q*abs(sum) ? quiet + 1 : 0;
      if (quiet > 3 && (n > 100 || k > n + 2)) { break; }
   }
   return n % 2 ? sum.re : sum.im;
}

q sl(int64_t n, q x)
{
   x = reduce(x);
   if (n % 2 && x == 0) { return x; }
   if (n == 1) { return x > 0 ? (PI - x)/2 : (-PI - x)/2; }
   cq sum = { 0, 0 }, p = { 1, 0 };
   int quiet = 0;
   const cq l = { 0, x };
   for (int64_t k = 0; k < NMAX; ++k) {
      if (k > 0) { p = p*l*(q(1)/q(k)); }
      cq t;
      if (k == n - 1) {
         q h = 0;
         for (int64_t j = 1; j <= n - 1; ++j) { h += q(1)/q(j); }
         const cq lg = { x == 0 ? q(0) : logq(fabsq(x)), x > 0 ? -PI/2 : PI/2 };
         t = p*(cq{ h, 0 } - lg);
      } else {
         const q ze = zeta(n - k);
         if (ze == 0) { continue; }
         t = p*ze;
      }
      sum = sum + t;
      quiet = abs(t) <= 1e-37Q*abs(sum) ? quiet + 1 : 0;
      if (quiet > 3 && (n > 100 || k > n + 2)) { break; }
   }
   return n % 2 ? sum.im : sum.re;
}

} // namespace ref
