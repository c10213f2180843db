// Discovery: a coverage-guided search for call arguments on every path of the
// library, next to every branch boundary, with many steps, or touching shared
// memory.  Its results (the corpus) steer the workload of the simulations; no
// verdict depends on it.
#include "disc.hpp"
#include <cmath>
#include <cstdio>
#include <unordered_map>
#include <unordered_set>

bool disc_on = false;
bool probe_call(const Call& c, u64 cap, u64& steps, u64& hot, int& why);
void probe_init();

static uintptr_t prevpc; static u64 sethash;
static std::vector<unsigned> curlist; static unsigned char cur[1 << 16];

void disc_pc(uintptr_t pc) {
   unsigned e = (unsigned)(mix(pc, prevpc) & 0xffff); prevpc = pc;
   if (!cur[e]) { cur[e] = 1; curlist.push_back(e); sethash += mix64(e + 1); }
}

struct Site { u64 n = 0; double a = 0, b = 0; bool ac = true, bc = true; };
struct SiteI { u64 n = 0; i64 a = 0, b = 0; bool ac = true, bc = true; };
static std::unordered_map<uintptr_t, Site> sites;
static std::unordered_map<uintptr_t, SiteI> isites;
static bool collect;

void disc_cmpd(uintptr_t pc, double a, double b) {
   if (!collect) return;
   Site& s = sites[pc];
   if (s.n++ == 0) { s.a = a; s.b = b; return; }
   if (s.a != a) s.ac = false;
   if (s.b != b) s.bc = false;
}
void disc_cmp(uintptr_t pc, i64 a, i64 b, int) {
   if (!collect) return;
   SiteI& s = isites[pc];
   if (s.n++ == 0) { s.a = a; s.b = b; return; }
   if (s.a != a) s.ac = false;
   if (s.b != b) s.bc = false;
}

static bool probe(const Call& c, u64& steps, u64& hot, u64& sh, int& why) {
   for (unsigned e : curlist) cur[e] = 0;
   curlist.clear(); sethash = 0; prevpc = 0;
   disc_on = true;
   bool ok = probe_call(c, 3000000, steps, hot, why);
   disc_on = false;
   sh = sethash;
   return ok;
}

static LD lerp(LD x, LD y, LD t) {
   if (x > 0 && y > 0) return expl(logl(x) + (logl(y) - logl(x)) * t);
   if (x < 0 && y < 0) return -expl(logl(-x) + (logl(-y) - logl(-x)) * t);
   return x + (y - x) * t;
}

int discover(u64 seed, u64 budget, const char* out, const char* in) {
   probe_init();
   if (in) corpus.load(in);
   Rng r(mix(seed, 0xd15c));
   std::vector<std::unordered_set<unsigned>> seen(nfns());
   std::vector<u64> beststeps(nfns(), 0);
   std::unordered_map<u64, int> bcount, hcount;
   std::vector<std::vector<std::pair<Call, u64>>> recent(nfns());
   u64 evals = 0, crashes = 0;
   corpus.by_fn.resize(nfns());
   collect = true;
   while (evals < budget) {
      GenOpt o;
      Call c;
      if (!corpus.e.empty() && r.chance(0.4)) { c = corpus.e[r.below(corpus.e.size())].c; int k = 1 + (int)r.below(3); while (k--) mutate_call(r, c); }
      else c = gen_call(r, o);
      c.env = Env();
      if (r.chance(0.15)) { c.env.rm = r.below(4); if (r.chance(0.3)) c.env.ftz = r.below(4); }
      u64 steps, hot, sh; int why;
      evals++;
      bool ok = probe(c, steps, hot, sh, why);
      Call plain = c; plain.env = Env();
      if (!ok) {
         if (crashes++ < 30) corpus.add(plain, why == 1 ? 4 : 16);
         if (crashes > 200) break;
         continue;
      }
      int kind = 0;
      for (unsigned e : curlist) if (seen[c.fn].insert(e).second) kind |= 1;
      if (steps > beststeps[c.fn] + beststeps[c.fn] / 20) { beststeps[c.fn] = steps; kind |= 4; }
      if (hot && hcount[mix(sh, c.fn)]++ < 6) kind |= 8;
      if (kind) corpus.add(plain, kind);
      // boundary between the paths of two calls of the same function
      auto& rc = recent[c.fn];
      if (!rc.empty() && r.chance(0.25) && std::isfinite(c.a[0]) && std::isfinite(c.a[1])) {
         auto& other = rc[r.below(rc.size())];
         if (other.second != sh && std::isfinite(other.first.a[0]) && std::isfinite(other.first.a[1]) && bcount[mix(mix(sh, other.second), c.fn)]++ < 4) {
            Call lo = c, hi = other.first; hi.n = lo.n; hi.env = lo.env;
            u64 sl = sh, s2; u64 t1, t2;
            if (probe(hi, t1, t2, s2, why) && s2 != sl) {
               bool okk = true; bool lin = r.chance(0.4);
               for (int k = 0; k < 90; k++) {
                  Call m = lo;
                  for (int i = 0; i < 2; i++) m.a[i] = lin ? lo.a[i] + (hi.a[i] - lo.a[i]) / 2 : lerp(lo.a[i], hi.a[i], 0.5L);
                  round_arg(m);
                  if (same_call(m, lo) || same_call(m, hi)) break;
                  u64 sm; evals++;
                  if (!probe(m, t1, t2, sm, why)) { okk = false; break; }
                  if (sm == sl) lo = m; else hi = m;
               }
               lo.env = hi.env = Env();
               if (okk) { corpus.add(lo, 2); corpus.add(hi, 2); }
            }
         }
      }
      if (rc.size() < 64) rc.push_back({c, sh}); else rc[r.below(64)] = {c, sh};
   }
   collect = false;
   for (auto& s : sites) if (s.second.n >= 4) {
      if (s.second.ac && std::isfinite(s.second.a)) corpus.dict.push_back(s.second.a);
      if (s.second.bc && std::isfinite(s.second.b)) corpus.dict.push_back(s.second.b);
   }
   for (auto& s : isites) if (s.second.n >= 4) {
      if (s.second.ac) corpus.idict.push_back(s.second.a);
      if (s.second.bc) corpus.idict.push_back(s.second.b);
   }
   if (!corpus.save(out)) return 4;
   size_t edges = 0; for (auto& s : seen) edges += s.size();
   size_t nb = 0; for (auto& e : corpus.e) nb += (e.kind & 2) != 0;
   printf("DISC evals=%llu entries=%zu edges=%zu boundary=%zu hot=%zu crashes=%llu dict=%zu idict=%zu\n", (unsigned long long)evals, corpus.e.size(), edges, nb,
          corpus.hot.size(), (unsigned long long)crashes, corpus.dict.size(), corpus.idict.size());
   return 0;
}
