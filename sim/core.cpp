#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>

int nfns() { return api_c_len + api_cpp_len; }
const api_fn& fn(int i) { return i < api_c_len ? api_c[i] : api_cpp[i - api_c_len]; }
int fn_index(const std::string& name) {
   for (int i = 0; i < nfns(); i++) if (name == fn(i).name) return i;
   return -1;
}

u64 hash_bytes(const void* p, size_t n, u64 h) {
   const unsigned char* c = (const unsigned char*)p;
   for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
   return mix64(h);
}

size_t arg_size(const api_fn& f) {
   size_t s = f.prec == P_FLOAT ? 4 : f.prec == P_DOUBLE ? 8 : 16;
   return f.cplx ? 2 * s : s;
}

void store_arg(const Call& c, void* p) {
   const api_fn& f = fn(c.fn);
   int k = f.cplx ? 2 : 1;
   for (int i = 0; i < k; i++) {
      if (f.prec == P_FLOAT) ((float*)p)[i] = (float)c.a[i];
      else if (f.prec == P_DOUBLE) ((double*)p)[i] = (double)c.a[i];
      else ((LD*)p)[i] = c.a[i];
   }
}

void round_arg(Call& c) {
   const api_fn& f = fn(c.fn);
   for (int i = 0; i < 2; i++) {
      if (f.prec == P_FLOAT) c.a[i] = (float)c.a[i];
      else if (f.prec == P_DOUBLE) c.a[i] = (double)c.a[i];
   }
   if (!f.cplx) c.a[1] = 0;
   if (f.order) c.n = 0;
}

static void canon1(LD v, unsigned char* o) {
   memset(o, 0, 16);
   if (std::isnan(v)) { memset(o, 0xff, 10); return; }
   memcpy(o, &v, 10);
}

Res canon(const api_fn& f, const void* p) {
   Res r; memset(&r, 0, sizeof r);
   int k = f.cplx ? 2 : 1;
   for (int i = 0; i < k; i++) {
      LD v = f.prec == P_FLOAT ? (LD)((const float*)p)[i] : f.prec == P_DOUBLE ? (LD)((const double*)p)[i] : ((const LD*)p)[i];
      canon1(v, r.b + 16 * i);
   }
   return r;
}

void res_values(const api_fn&, const Res& r, LD v[2]) {
   v[0] = v[1] = 0;
   for (int i = 0; i < 2; i++) memcpy(&v[i], r.b + 16 * i, 10);
}

static std::string ldstr(LD v) {
   char b[96];
   if (std::isnan(v)) return "nan";
   snprintf(b, sizeof b, "%.21Lg", v);
   return b;
}

std::string res_str(const api_fn& f, const Res& r) {
   LD v[2]; res_values(f, r, v);
   return f.cplx ? "(" + ldstr(v[0]) + "," + ldstr(v[1]) + ")" : ldstr(v[0]);
}

static const char* rmname[4] = {"nearest", "down", "up", "zero"};

std::string call_str(const Call& c) {
   const api_fn& f = fn(c.fn);
   std::string s = f.name; s += "(";
   if (general(f)) s += std::to_string((long long)c.n) + ", ";
   s += ldstr(c.a[0]);
   if (f.cplx) s += " + i*" + ldstr(c.a[1]);
   s += ")";
   if (c.env.rm) s += std::string(" rounding=") + rmname[c.env.rm];
   if (c.env.ftz) s += std::string(c.env.ftz & 1 ? " ftz" : "") + (c.env.ftz & 2 ? " daz" : "");
   if (c.env.pend) s += " pending=" + std::to_string(c.env.pend);
   if (c.env.traps) s += " traps=" + std::to_string(c.env.traps);
   if (c.env.pc) s += " x87pc=" + std::to_string(c.env.pc);
   if (c.env.libm) s += " libm=" + std::to_string(c.env.libm);
   return s;
}

std::string call_ser(const Call& c) {
   char b[512], h[2][24];
   for (int i = 0; i < 2; i++) {
      const unsigned char* p = (const unsigned char*)&c.a[i];
      for (int k = 0; k < 10; k++) sprintf(h[i] + 2 * k, "%02x", p[k]);
   }
   snprintf(b, sizeof b, "%s %lld %s %s %d %d %d %d %d %llu", fn(c.fn).name, (long long)c.n, h[0], h[1],
            c.env.rm, c.env.ftz, c.env.pend, c.env.traps, c.env.pc, (unsigned long long)c.env.libm);
   return b;
}

bool call_parse(const char* s, Call& c) {
   char name[64], h[2][64]; long long n; int e[5]; unsigned long long lm;
   if (sscanf(s, "%63s %lld %63s %63s %d %d %d %d %d %llu", name, &n, h[0], h[1], e, e + 1, e + 2, e + 3, e + 4, &lm) != 10) return false;
   c.fn = fn_index(name); if (c.fn < 0) return false;
   c.n = n;
   for (int i = 0; i < 2; i++) {
      if (strlen(h[i]) != 20) return false;
      c.a[i] = 0;
      unsigned char* p = (unsigned char*)&c.a[i];
      for (int k = 0; k < 10; k++) { unsigned v; if (sscanf(h[i] + 2 * k, "%2x", &v) != 1) return false; p[k] = v; }
   }
   c.env.rm = e[0]; c.env.ftz = e[1]; c.env.pend = e[2]; c.env.traps = e[3]; c.env.pc = e[4]; c.env.libm = lm;
   return true;
}

bool same_call(const Call& a, const Call& b) {
   return a.fn == b.fn && a.n == b.n && memcmp(&a.a[0], &b.a[0], 10) == 0 && memcmp(&a.a[1], &b.a[1], 10) == 0 && a.env == b.env;
}

// ---- corpus -------------------------------------------------------------
Corpus corpus;

void Corpus::add(const Call& c, int kind) {
   if (by_fn.empty()) by_fn.resize(nfns());
   if (cov_fn.empty()) cov_fn.resize(nfns());
   e.push_back(E{c, kind});
   by_fn[c.fn].push_back((int)e.size() - 1);
   if (kind & 1) cov_fn[c.fn].push_back((int)e.size() - 1);
   if (kind & 8) hot.push_back((int)e.size() - 1);
}

bool Corpus::save(const char* file) const {
   FILE* f = fopen(file, "w"); if (!f) return false;
   for (double d : dict) fprintf(f, "D %a\n", d);
   for (i64 d : idict) fprintf(f, "I %lld\n", (long long)d);
   for (auto& x : e) fprintf(f, "C %d %s\n", x.kind, call_ser(x.c).c_str());
   return fclose(f) == 0;
}

bool Corpus::load(const char* file) {
   if (by_fn.empty()) by_fn.resize(nfns());
   if (cov_fn.empty()) cov_fn.resize(nfns());
   FILE* f = fopen(file, "r"); if (!f) return false;
   char line[1024];
   while (fgets(line, sizeof line, f)) {
      if (line[0] == 'D') dict.push_back(strtod(line + 2, nullptr));
      else if (line[0] == 'I') idict.push_back(strtoll(line + 2, nullptr, 10));
      else if (line[0] == 'C') {
         char* p; int k = (int)strtol(line + 2, &p, 10);
         Call c; if (call_parse(p + 1, c)) add(c, k);
      }
   }
   fclose(f);
   std::sort(dict.begin(), dict.end()); dict.erase(std::unique(dict.begin(), dict.end()), dict.end());
   std::sort(idict.begin(), idict.end()); idict.erase(std::unique(idict.begin(), idict.end()), idict.end());
   return true;
}

// ---- generation -----------------------------------------------------------
LD ulp_step(int prec, LD x, int k) {
   if (!std::isfinite(x)) return x;
   LD inf = k > 0 ? HUGE_VALL : -HUGE_VALL;
   int m = k < 0 ? -k : k;
   for (int i = 0; i < m; i++) {
      if (prec == P_FLOAT) x = nextafterf((float)x, (float)inf);
      else if (prec == P_DOUBLE) x = nextafter((double)x, (double)inf);
      else x = nextafterl(x, inf);
   }
   return x;
}

static int bits_of(int prec) { return prec == P_FLOAT ? 24 : prec == P_DOUBLE ? 53 : 64; }

static i64 gen_n(Rng& r, i64 lo, i64 hi) {
   for (int tries = 0; tries < 40; tries++) {
      i64 n;
      switch (r.below(12)) {
      case 0: case 1: case 2: n = r.range(1, 8); break;
      case 3: n = r.range(-12, 12); break;
      case 4: n = r.range(1, 40); break;
      case 5: n = r.range(1, 310); break;
      case 6: n = r.chance(0.6) ? r.range(-40, 0) : r.chance(0.8) ? r.range(-180, -20) : r.range(-1500, -170); break;
      case 7: case 8:
         n = corpus.idict.empty() ? r.range(2, 6) : corpus.idict[r.below(corpus.idict.size())] + r.range(-1, 1);
         if (r.chance(0.2)) n = (i64)(0ull - (u64)n);
         break;
      case 9: n = (i64)exp2(r.uni(0, 62.9)); if (r.chance(0.4)) n = -n; break;
      case 10: {
         static const i64 sp[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, (i64)INT32_MAX + 1, (i64)INT32_MIN - 1, 1ll << 53, (1ll << 53) + 1, 1ll << 62, 0, 1, -1, 2, 1000, 1023, 1024, 170, 171, 10, 12, 13, 100, 99, 101};
         n = sp[r.below(sizeof sp / sizeof *sp)]; break;
      }
      default: n = r.range(2, 6);
      }
      if (n >= lo && n <= hi) return n;
   }
   // fall back to a uniform choice in a sane part of the range
   i64 a = lo < -1000 ? -1000 : lo, b = hi > 1000 ? 1000 : hi;
   if (a > b) { a = lo; b = lo; }
   return r.range(a, b);
}

LD gen_mod(Rng& r, int prec, double lmin, double lmax) {
   // modulus: log-uniform and its usual special regions
   double emax = prec == P_FLOAT ? 37 : prec == P_DOUBLE ? 307 : 4900;
   if (lmin == lmax) { lmin = -emax; lmax = emax; }
   switch (r.below(10)) {
   case 0: return powl(10, (LD)r.uni(lmin, lmax));
   case 1: case 2: return powl(10, (LD)r.uni(std::max(lmin, -20.), std::min(lmax, 20.)));
   case 3: case 4: return powl(10, (LD)r.uni(-3, 3));
   case 5: { LD d = powl(10, (LD)r.uni(-22, 0)); return r.chance(0.5) ? 1 + d : 1 - d; }
   case 6: return r.uni(0, 2);
   case 7: return r.uni(0, 1);
   case 8: return r.uni(0, 10);
   default: return exp2l((LD)r.range(-8, 8)) * (r.chance(0.5) ? 1 : (LD)r.range(1, 16) / 8);
   }
}

static const LD PI = 3.14159265358979323846264338327950288L;

static LD small_special(Rng& r, int prec) {
   static const LD v[] = {0.0L, 1.0L, 0.5L, 2.0L, 0.25L, 1.5L, 3.0L, 4.0L, 10.0L, 0.1L, 0.75L, 1e-3L};
   LD x = v[r.below(sizeof v / sizeof *v)];
   if (r.chance(0.5)) x = -x;
   if (r.chance(0.3)) { x = prec == P_FLOAT ? (LD)(float)x : prec == P_DOUBLE ? (LD)(double)x : x; x = ulp_step(prec, x, (int)r.range(-3, 3)); }
   return x;
}

static LD nonfinite(Rng& r, int prec) {
   switch (r.below(7)) {
   case 0: return HUGE_VALL;
   case 1: return -HUGE_VALL;
   case 2: return __builtin_nanl("");
   case 3: return -__builtin_nanl("");
   case 4: return prec == P_FLOAT ? (LD)3.4e38f : prec == P_DOUBLE ? (LD)1.79e308 : 1.1e4932L;
   case 5: return prec == P_FLOAT ? (LD)1e-44f : prec == P_DOUBLE ? (LD)5e-324 : 4e-4951L;
   default: return prec == P_FLOAT ? (LD)-1e-40f : prec == P_DOUBLE ? (LD)-1e-310 : -1e-4940L;
   }
}

static LD gen_angle(Rng& r, int prec, double lmin, double lmax) {
   double emax = prec == P_FLOAT ? 37 : prec == P_DOUBLE ? 307 : 4900;
   if (lmin == lmax) { lmin = -emax; lmax = emax; }
   LD x;
   switch (r.below(9)) {
   case 0: x = powl(10, (LD)r.uni(lmin, lmax)); break;
   case 1: x = powl(10, (LD)r.uni(std::max(lmin, -20.), std::min(lmax, 8.))); break;
   case 2: case 3: x = r.uni(0, 2 * 3.14159265358979); break;
   case 4: x = PI * r.range(0, 12) / (r.chance(0.5) ? 2 : r.chance(0.5) ? 3 : 4); x += (r.chance(0.5) ? -1 : 1) * (r.chance(0.3) ? 0.0L : powl(10, (LD)r.uni(-20, 0))); break;
   case 5: x = PI * r.range(0, 4); x += (r.chance(0.5) ? -1 : 1) * powl(10, (LD)r.uni(-18, 0)); break;
   case 6: x = r.uni(0, 100); break;
   case 7: x = 2 * PI * floorl(powl(10, (LD)r.uni(0, 7))) + r.uni(-4, 4); break;
   default: x = powl(10, (LD)r.uni(-3, 2)); break;
   }
   if (r.chance(0.4)) x = -x;
   return x;
}

static LD dict_value(Rng& r) {
   auto& d = corpus.dict;
   if (d.empty()) return small_special(r, P_LDOUBLE);
   size_t i = r.below(d.size());
   LD x = d[i];
   if (i + 1 < d.size() && r.chance(0.5)) {   // between neighbouring constants
      LD y = d[i + 1];
      LD t = r.uni();
      LD v = r.chance(0.5) || x * y <= 0 ? x + (y - x) * t : (x < 0 ? -1 : 1) * expl(logl(fabsl(x)) * (1 - t) + logl(fabsl(y)) * t);
      if (std::isfinite(v)) x = v;
   } else {
      if (r.chance(0.4)) x += (r.chance(0.5) ? 1 : -1) * fabsl(x) * powl(10, (LD)r.uni(-19, -1));
   }
   switch (r.below(12)) {
   case 0: x = -x; break;
   case 1: if (x != 0) x = 1 / x; break;
   case 2: x = sqrtl(fabsl(x)); break;
   case 3: if (fabsl(x) < 700) x = expl(x); break;
   case 4: if (fabsl(x) < 700) x = expl(-x); break;
   case 5: x = 1 - x; break;
   case 6: if (fabsl(x) < 700) x = expl(sqrtl(fabsl(x))); break;
   case 7: x = x * x; break;
   default: break;
   }
   return x;
}

static void gen_complex(Rng& r, int prec, double lmin, double lmax, LD a[2]) {
   LD m, ph;
   switch (r.below(12)) {
   case 0: case 1: case 2: m = gen_mod(r, prec, lmin, lmax); ph = r.uni(-3.14159265, 3.14159265); break;
   case 3: { LD d = powl(10, (LD)r.uni(-20, 0)); ph = r.uni(-3.14159265, 3.14159265); a[0] = (r.chance(0.7) ? 1 : -1) + d * cosl(ph); a[1] = d * sinl(ph); return; }
   case 4: a[0] = gen_mod(r, prec, lmin, lmax) * (r.chance(0.5) ? 1 : -1); a[1] = r.chance(0.5) ? 0.0L : -0.0L; return;
   case 5: a[1] = gen_mod(r, prec, lmin, lmax) * (r.chance(0.5) ? 1 : -1); a[0] = r.chance(0.5) ? 0.0L : -0.0L; return;
   case 6: a[0] = r.uni(-3, 3); a[1] = r.uni(-3, 3); return;
   case 7: a[0] = (LD)r.range(-8, 8) / 4; a[1] = (LD)r.range(-8, 8) / 4; return;
   case 8: m = 1 + (r.chance(0.5) ? 1 : -1) * powl(10, (LD)r.uni(-20, 0)); ph = r.uni(-3.14159265, 3.14159265); break;
   case 9: m = gen_mod(r, prec, lmin, lmax); ph = (r.chance(0.5) ? 1 : -1) * powl(10, (LD)r.uni(-20, 0)); if (r.chance(0.5)) ph = PI - ph; break;
   case 10: a[0] = gen_mod(r, prec, lmin, lmax) * (r.chance(0.5) ? 1 : -1); a[1] = gen_mod(r, prec, lmin, lmax) * (r.chance(0.5) ? 1 : -1); return;
   default: m = expl((LD)r.uni(0, 8)); ph = r.uni(-3.14159265, 3.14159265); if (r.chance(0.5)) m = 1 / m; break;
   }
   a[0] = m * cosl(ph); a[1] = m * sinl(ph);
}

void mutate_call(Rng& r, Call& c) {
   const api_fn& f = fn(c.fn);
   int k = 1 + (int)r.below(2);
   for (int t = 0; t < k; t++) {
      int i = f.cplx ? (int)r.below(2) : 0;
      switch (r.below(13)) {
      case 0: case 1: c.a[i] = ulp_step(f.prec, c.a[i], (int)r.range(-4, 4)); break;
      case 2: c.a[i] += c.a[i] * r.uni(-1, 1) * powl(10, (LD)r.uni(-19, 0)); break;
      case 3: c.a[i] = -c.a[i]; break;
      case 4: c.a[i] *= exp2l((LD)r.range(-3, 3)); break;
      case 5: if (f.cplx) std::swap(c.a[0], c.a[1]); break;
      case 6: if (f.cplx) { LD m = c.a[0] * c.a[0] + c.a[1] * c.a[1]; if (m > 0 && std::isfinite(m)) { c.a[0] /= m; c.a[1] /= -m; } } else if (c.a[0] != 0) c.a[0] = 1 / c.a[0]; break;
      case 7: { LD s = 1 + r.uni(-1, 1) * powl(10, (LD)r.uni(-18, 0)); c.a[0] *= s; c.a[1] *= s; break; }
      case 8: if (f.cplx) c.a[1] = r.chance(0.5) ? 0.0L : r.chance(0.5) ? -0.0L : c.a[0] * powl(10, (LD)r.uni(-20, 0)); break;
      case 9: if (f.cplx) { LD ph = r.uni(-1, 1) * powl(10, (LD)r.uni(-15, 1)); LD x = c.a[0] * cosl(ph) - c.a[1] * sinl(ph), y = c.a[0] * sinl(ph) + c.a[1] * cosl(ph); c.a[0] = x; c.a[1] = y; } break;
      case 10: { int b = (int)r.below(bits_of(f.prec)); int ex; LD m = frexpl(c.a[i], &ex); if (m != 0 && std::isfinite(m)) c.a[i] += (r.chance(0.5) ? 1 : -1) * ldexpl(1, ex - 1 - b); break; }
      case 11: if (f.fam != F_LI) c.a[0] += 2 * PI * r.range(-3, 3); break;
      default: break;
      }
   }
   if (general(f)) switch (r.below(6)) {
      case 0: c.n += r.range(-1, 1); break;
      case 1: c.n = gen_n(r, INT64_MIN, INT64_MAX); break;
      case 2: if (c.n < (1ll << 61) && c.n > -(1ll << 61)) c.n *= 2; break;
      default: break;
   }
   round_arg(c);
}

bool in_range(const Call& c, const GenOpt& o) {
   const api_fn& f = fn(c.fn);
   if (general(f) && (c.n < o.nlo || c.n > o.nhi)) return false;
   if (o.mode != G_ANY && !(std::isfinite(c.a[0]) && std::isfinite(c.a[1]))) return false;
   if (o.lgmin != o.lgmax) {
      LD m = f.cplx ? hypotl(c.a[0], c.a[1]) : fabsl(c.a[0]);
      LD l = m > 0 ? log10l(m) : -1e9L;
      if (!(l >= o.lgmin && l <= o.lgmax)) return false;
   }
   return true;
}

static int pick_fn(Rng& r) {
   static std::vector<int> w;
   if (w.empty()) for (int i = 0; i < nfns(); i++) for (int k = 0; k < (general(fn(i)) ? 5 : 1); k++) w.push_back(i);
   return w[r.below(w.size())];
}

Call gen_call(Rng& r, const GenOpt& o) {
   Call c;
   for (int tries = 0; tries < 60; tries++) {
      c = Call();
      c.fn = o.fn >= 0 ? o.fn : pick_fn(r);
      const api_fn& f = fn(c.fn);
      c.n = general(f) ? gen_n(r, o.nlo, o.nhi) : 0;
      int src = (int)r.below(100);
      if (src < 45 && !corpus.e.empty()) {
         const Corpus::E* e = nullptr;
         auto& own = corpus.by_fn[c.fn];
         auto& cov = corpus.cov_fn[c.fn];
         if (!cov.empty() && r.chance(0.3)) e = &corpus.e[cov[r.below(cov.size())]];
         else if (!own.empty() && r.chance(0.65)) e = &corpus.e[own[r.below(own.size())]];
         else for (int k = 0; k < 8 && !e; k++) {
            const Corpus::E& x = corpus.e[r.below(corpus.e.size())];
            if (fn(x.c.fn).fam == f.fam) e = &x;
         }
         if (!e) continue;
         c.a[0] = e->c.a[0]; c.a[1] = e->c.a[1];
         if (general(f) && general(fn(e->c.fn)) && r.chance(0.7)) c.n = e->c.n;
         round_arg(c);
         if (r.chance(0.6)) mutate_call(r, c);
      } else if (src < 60) {
         c.a[0] = dict_value(r);
         if (f.cplx) {
            switch (r.below(4)) {
            case 0: c.a[1] = dict_value(r); break;
            case 1: c.a[1] = r.uni(-2, 2); break;
            case 2: c.a[1] = c.a[0]; c.a[0] = r.uni(-2, 2); break;
            default: { LD m = c.a[0], ph = r.uni(-3.14159265, 3.14159265); c.a[0] = m * cosl(ph); c.a[1] = m * sinl(ph); }
            }
         } else if (f.fam != F_LI && r.chance(0.4)) c.a[0] *= PI;
      } else if (src < 66) {
         c.a[0] = small_special(r, f.prec); c.a[1] = small_special(r, f.prec);
      } else if (src < 72 && o.mode == G_ANY) {
         c.a[0] = nonfinite(r, f.prec); c.a[1] = r.chance(0.5) ? nonfinite(r, f.prec) : small_special(r, f.prec);
         if (r.chance(0.5)) std::swap(c.a[0], c.a[1]);
      } else if (f.fam == F_LI) {
         if (f.cplx) gen_complex(r, f.prec, o.lgmin, o.lgmax, c.a);
         else c.a[0] = gen_mod(r, f.prec, o.lgmin, o.lgmax) * (r.chance(0.5) ? 1 : -1);
      } else c.a[0] = gen_angle(r, f.prec, o.lgmin, o.lgmax);
      if (general(f) && f.fam == F_LI && c.n < -10 && c.n > -3500 && o.mode != G_ANY && r.chance(0.5)) {
         // distance ln|z| from the poles at which the result is representable
         LD l = expl((lgammal(1 - c.n) - 690) / (1 - c.n)), ph = atan2l(c.a[1], c.a[0]);
         if (std::isnan(ph)) ph = 1;
         l = r.chance(0.5) ? l * (LD)r.uni(0.97, 1.6) : l * expl((LD)r.uni() * logl(745 / l));
         l = expl(r.chance(0.6) ? -l : l);
         LD re = l * cosl(ph), im = c.a[1] == 0 ? c.a[1] : l * sinl(ph);
         c.a[0] = re; c.a[1] = im;
      }
      round_arg(c);
      if (in_range(c, o)) return c;
   }
   const api_fn& f = fn(c.fn);
   c.a[0] = r.uni(0.1, 3) * (r.chance(0.5) ? 1 : -1); c.a[1] = r.uni(-3, 3);
   if (general(f)) c.n = gen_n(r, o.nlo, o.nhi);
   round_arg(c);
   return c;
}
