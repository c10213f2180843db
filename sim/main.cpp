// Workloads, seeded search, minimisation, replay
#include "exec.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

int discover(u64 seed, u64 budget, const char* out, const char* in);

static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + 1e-6 * t.tv_usec; }

// ---- totals of a worker -----------------------------------------------------
static u64 total[ST_N], runs, evaluations, nontrivial; static u64 maxsteps, maxstack; static std::string maxsteps_call;
static std::unordered_set<u64> distinct; static double maxerr[256];
static u64 evfired[EV_NKINDS];
static std::vector<std::string> samples;
static u64 pristines;
static std::map<std::string, u64> covfn;

static void absorb(const Scenario& sc) {
   runs++;
   for (int i = 0; i < ST_N; i++) total[i] += shm->st[i];
   if (shm->maxsteps > maxsteps) { maxsteps = shm->maxsteps; if (shm->maxsteps_op >= 0 && shm->maxsteps_op < (int)sc.ops.size()) maxsteps_call = call_str(sc.calls[sc.ops[shm->maxsteps_op].call]); }
   maxstack = std::max(maxstack, shm->maxstack);
   for (int i = 0; i < 256; i++) maxerr[i] = std::max(maxerr[i], shm->err_fn[i]);
}

// ---- environments -------------------------------------------------------------
static Env rand_env(Rng& r, double pdefault, bool libm = true) {
   Env e;
   if (r.chance(pdefault)) return e;
   if (r.chance(0.6)) e.rm = r.below(4);
   if (r.chance(0.35)) e.ftz = 1 + r.below(3);
   if (libm && r.chance(0.5)) e.libm = 1 + r.below(1000000);
   return e;
}

// ---- pools ----------------------------------------------------------------------
// A pool holds clusters of related calls: equal arguments at different orders
// and functions, neighbours in the last place, reflected and truncated
// arguments - the calls that anything remembered by the library would confuse.
struct Pool {
   std::vector<Call> calls; std::vector<Slot> cold, warm; std::vector<int> cluster; std::vector<int> hot;
};

static void relate(Rng& r, const Call& b, Call& c) {
   c = b;
   const api_fn& f = fn(b.fn);
   switch (r.below(11)) {
   case 0: c.a[0] = -c.a[0]; break;
   case 1: c.a[1] = -c.a[1]; if (!f.cplx) c.a[0] = -c.a[0]; break;
   case 2: c.a[r.below(f.cplx ? 2 : 1)] = ulp_step(f.prec, c.a[0], r.chance(0.5) ? 1 : -1); break;
   case 3: c.a[0] = ulp_step(f.prec, c.a[0], (int)r.range(-3, 3)); break;
   case 4: case 5: if (general(f)) c.n += r.chance(0.5) ? 1 : -1; else c.a[0] *= 1 + 1e-9L * r.range(-3, 3); break;
   case 6: c.a[0] = (LD)(float)c.a[0]; c.a[1] = (LD)(float)c.a[1]; break;
   case 7: if (general(f)) c.n = r.range(-8, 40); else c.a[0] *= 2; break;
   case 8: case 9:
      for (int t = 0; t < 20; t++) {
         int k = (int)r.below(nfns()); const api_fn& g = fn(k);
         if (g.fam == f.fam && g.cplx == f.cplx) { i64 n = order_of(b); c.fn = k; c.n = general(g) ? (r.chance(0.7) ? n : n + r.range(-1, 1)) : 0; break; }
      }
      break;
   default: mutate_call(r, c);
   }
   round_arg(c);
}

static bool make_pool(Rng& r, Pool& p, int clusters, int per, double pdefault, bool libm, std::string& err, Call& bad, GenOpt o = GenOpt()) {
   for (int k = 0; k < clusters; k++) {
      Call b;
      if (!corpus.hot.empty() && r.chance(0.6)) { b = corpus.e[corpus.hot[r.below(corpus.hot.size())]].c; if (r.chance(0.3)) mutate_call(r, b); }
      else b = gen_call(r, o);
      b.env = rand_env(r, pdefault, libm);
      int m = 1 + (int)r.below(per);
      for (int i = 0; i < m; i++) {
         Call c = b; if (i) relate(r, r.chance(0.6) ? b : p.calls.back(), c);
         c.env = b.env;
         if (i && r.chance(0.15)) c.env = rand_env(r, 0.5, libm);
         if (r.chance(0.2)) c.env.pend = 1 + r.below(63);     // flags left behind by earlier computations
         p.calls.push_back(c); p.cluster.push_back(k);
      }
   }
   for (auto& c : p.calls) {
      Slot a, w;
      pristines++;
      Call plain = c; plain.env.pend = 0;
      if (!pristine(plain, a, &w, err)) { bad = plain; return false; }
      p.cold.push_back(a); p.warm.push_back(w);
      if (a.hot || w.hot) p.hot.push_back((int)p.cold.size() - 1);
   }
   return true;
}

// ---- scenario running with minimisation --------------------------------------------
struct Found { bool any = false; Scenario sc; Violation v; };

static bool expectations(const Scenario& sc, std::vector<Slot>& ex, Violation& v) {
   ex.clear();
   if (!(sc.checks & CK_RESULT)) return true;
   for (auto& c : sc.calls) {
      Slot s; std::string err; Call plain = c; plain.env.pend = plain.env.traps = 0;
      if (!pristine(plain, s, nullptr, err)) {
         v.kind = V_CRASH; v.op = -1; v.msg = "in isolation, " + call_str(c) + ": " + err; v.hash = hash_bytes(err.data(), err.size(), 1);
         return false;
      }
      ex.push_back(s);
   }
   return true;
}

static Violation run_full(const Scenario& sc) {
   std::vector<Slot> ex; Violation v;
   if (!expectations(sc, ex, v)) return v;
   return run_scenario(sc, ex.empty() ? nullptr : &ex);
}

// remove calls that are not referenced
static Scenario compact(const Scenario& s) {
   Scenario t = s;
   std::vector<char> useo(s.ops.size(), 0);
   std::vector<char> usek(s.conts.size(), 0);
   for (int k = 0; k < s.nthreads; k++) usek[k] = 1;
   for (bool ch = true; ch;) {
      ch = false;
      for (size_t k = 0; k < s.conts.size(); k++) if (usek[k]) for (int o : s.conts[k]) if (!useo[o]) { useo[o] = 1; ch = true; }
      for (auto& e : s.evs) if (useo[e.op] && e.cont >= 0 && e.cont < (int)usek.size() && !usek[e.cont]) { usek[e.cont] = 1; ch = true; }
   }
   std::vector<int> mo(s.ops.size(), -1), mk(s.conts.size(), -1), mc(s.calls.size(), -1);
   t.ops.clear(); t.conts.clear(); t.evs.clear(); t.calls.clear();
   for (size_t i = 0; i < s.ops.size(); i++) if (useo[i]) {
      Op o = s.ops[i];
      if (mc[o.call] < 0) {
         int same = -1;
         for (size_t q = 0; q < t.calls.size() && same < 0; q++) if (same_call(t.calls[q], s.calls[o.call])) same = (int)q;
         if (same < 0) { same = (int)t.calls.size(); t.calls.push_back(s.calls[o.call]); }
         mc[o.call] = same;
      }
      o.call = mc[o.call]; mo[i] = (int)t.ops.size(); t.ops.push_back(o);
   }
   for (size_t k = 0; k < s.conts.size(); k++) if (usek[k]) {
      mk[k] = (int)t.conts.size(); std::vector<int> v; for (int o : s.conts[k]) v.push_back(mo[o]); t.conts.push_back(v);
   }
   for (auto e : s.evs) if (useo[e.op]) { e.op = mo[e.op]; if (e.cont >= 0) e.cont = e.cont < (int)mk.size() ? mk[e.cont] : -1; t.evs.push_back(e); }
   return t;
}

static bool still(const Scenario& t, int kind, Violation& v, double tend) {
   if (now() > tend) return false;
   v = run_full(t);
   return v.kind == kind;
}

static void minimise(Scenario& s, Violation& v, double budget) {
   double tend = now() + budget;
   int kind = v.kind; Violation w; Scenario t;
   // the violating operation alone
   if (v.op >= 0 && v.op < (int)s.ops.size()) {
      t = s; t.conts = {{v.op}}; t.nthreads = 1; t.evs.clear(); t.reps = 1; t = compact(t);
      if (still(t, kind, w, tend)) { s = t; v = w; }
   }
   if (s.reps > 1) {
      u64 per = s.conts[0].size();
      t = s; t.reps = v.opindex / per + 1;
      if (t.reps < s.reps && still(t, kind, w, tend)) { s = t; v = w; }
      for (u64 cut = s.reps / 2; cut >= 1 && s.reps > 1; cut /= 2) {
         t = s; t.reps = s.reps > cut ? s.reps - cut : 1;
         if (t.reps < s.reps && still(t, kind, w, tend)) { s = t; v = w; }
      }
      if (s.reps > 1 && s.reps * s.conts[0].size() <= 400) {   // write the repetitions out
         t = s; t.conts[0].clear(); t.reps = 1;
         for (u64 k = 0; k < s.reps; k++) for (int o : s.conts[0]) { Op x = s.ops[o]; if (x.amb) x.amb = mix(x.amb, k); t.ops.push_back(x); t.conts[0].push_back((int)t.ops.size() - 1); }
         t = compact(t);
         if (still(t, kind, w, tend)) { s = t; v = w; }
      }
   }
   // later operations of the violating thread
   for (bool changed = true; changed && now() < tend;) {
      changed = false;
      // threads
      for (int k = s.nthreads - 1; k >= 0 && s.nthreads > 1; k--) {
         t = s; t.conts.erase(t.conts.begin() + k); t.nthreads--;
         bool bad = false;
         for (auto& e : t.evs) { if (e.cont >= 0) { if (e.cont == k) bad = true; if (e.cont > k) e.cont--; } if (e.kind == EV_SWITCH && e.arg > k) e.arg--; }
         if (bad) continue;
         t = compact(t);
         if (still(t, kind, w, tend)) { s = t; v = w; changed = true; }
      }
      // events
      for (int i = (int)s.evs.size() - 1; i >= 0; i--) {
         t = s; t.evs.erase(t.evs.begin() + i); t = compact(t);
         if (still(t, kind, w, tend)) { s = t; v = w; changed = true; i = std::min(i, (int)s.evs.size()); }
      }
      // operations, in chunks
      for (size_t k = 0; k < s.conts.size(); k++)
         for (size_t chunk = std::max<size_t>(1, s.conts[k].size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; k < s.conts.size() && i < s.conts[k].size();) {
               t = s; size_t n = std::min(chunk, t.conts[k].size() - i);
               t.conts[k].erase(t.conts[k].begin() + i, t.conts[k].begin() + i + n); t = compact(t);
               if (t.conts.size() == s.conts.size() && still(t, kind, w, tend)) { s = t; v = w; changed = true; }
               else i += n;
               if (now() > tend) break;
            }
            if (chunk == 1 || now() > tend) break;
         }
      // environments and ambient state
      for (size_t i = 0; i < s.calls.size(); i++) {
         Env e0 = s.calls[i].env;
         for (int what = 0; what < 6; what++) {
            t = s; Env& e = t.calls[i].env;
            if (what == 0) e = Env(); else if (what == 1) e.rm = 0; else if (what == 2) e.ftz = 0; else if (what == 3) e.libm = 0; else if (what == 4) e.pend = 0; else e.traps = 0;
            if (e == s.calls[i].env) continue;
            if (still(t, kind, w, tend)) { s = t; v = w; changed = true; }
         }
         (void)e0;
      }
      for (size_t i = 0; i < s.ops.size(); i++) if (s.ops[i].amb) {
         t = s; t.ops[i].amb = 0;
         if (still(t, kind, w, tend)) { s = t; v = w; changed = true; }
      }
      if (s.allocmode || s.seccomp || s.stacklim) for (int what = 0; what < 3; what++) {
         t = s; if (what == 0) t.allocmode = 0; else if (what == 1) t.seccomp = 0; else t.stacklim = 0;
         if ((what == 0 && s.allocmode) || (what == 1 && s.seccomp) || (what == 2 && s.stacklim)) if (still(t, kind, w, tend)) { s = t; v = w; changed = true; }
      }
   }
}

static std::string describe(const Scenario& s, const Violation& v) {
   std::string m = "# violation of " + s.prop + ": " + v_names[std::max(v.kind, 0)] + ": " + v.msg + "\n";
   if (v.op >= 0 && v.op < (int)s.ops.size()) m += "# in " + op_label(s, v.op) + ": " + call_str(s.calls[s.ops[v.op].call]) + "\n";
   return m;
}

static bool save_replay(const std::string& file, const Scenario& s, const Violation& v) {
   std::ofstream f(file);
   f << describe(s, v) << "# flavour " << (is_inst() ? "inst" : "native") << "\n# expect " << v.kind << " " << v.hash << "\n" << s.ser();
   return (bool)f;
}

static int replay(const char* file, bool quiet) {
   std::ifstream f(file); std::stringstream b; b << f.rdbuf();
   Scenario s; if (!f || !s.parse(b.str())) { printf("REPLAY error: cannot parse %s\n", file); return 3; }
   Violation v = run_full(s);
   if (!quiet) printf("%s", describe(s, v).c_str());
   printf("REPLAY kind=%d (%s) hash=%llu msg=%s\n", v.kind, v_names[std::max(0, v.kind)], (unsigned long long)v.hash, v.msg.c_str());
   return v.kind > 0 ? 1 : v.kind < 0 ? 3 : 0;
}

// ---- workloads ------------------------------------------------------------------------
struct Ctx {
   std::string prop; u64 seed; int worker; u64 batches; int scale; bool thorough;
   Found found;
};

static std::vector<Scenario>* record_determinism = nullptr;

// returns false if the search must stop
static bool submit(Ctx& x, const Scenario& sc, const std::vector<Slot>* ex, bool nontriv_by_fault) {
   Violation v = run_scenario(sc, ex);
   absorb(sc);
   u64 faults = shm->st[ST_SWITCH] + shm->st[ST_SIGNAL] + shm->st[ST_ABANDON] + shm->st[ST_STALL] + shm->st[ST_FORK];
   evaluations++;
   if (!nontriv_by_fault || faults) { nontrivial++; distinct.insert(v.hash); }
   if (samples.size() < 3 && (!nontriv_by_fault || faults)) samples.push_back(sc.ops.size() > 12 ? sc.ser().substr(0, 1500) : sc.ser());
   if (v.kind == 0) return true;
   x.found.any = true; x.found.sc = sc; x.found.v = v;
   return false;
}

static bool bad_pristine(Ctx& x, const Call& c, const std::string& err, unsigned checks) {
   Scenario s; s.prop = x.prop; s.checks = checks; s.calls = {c}; s.ops.resize(1); s.conts = {{0}};
   x.found.any = true; x.found.sc = s; x.found.v = run_full(s);
   if (!x.found.v.kind) { x.found.v.kind = -1; x.found.v.msg = "isolated call failed once but not again: " + call_str(c) + ": " + err; }
   return false;
}

static u64 event_point(Rng& r, const Slot& cold, const Slot& warm, int& byhot) {
   const Slot& s = r.chance(0.6) ? cold : warm;
   u64 hot = s.hot;
   if (hot && r.chance(0.75)) { byhot = 1; return 1 + r.below(hot + 1); }
   byhot = 0;
   return 1 + r.below(s.steps + 1);
}

static int pool_pick(Rng& r, const Pool& p, int prev) {
   if (prev >= 0 && r.chance(0.65)) {      // a related call
      for (int t = 0; t < 8; t++) { int i = (int)r.below(p.calls.size()); if (p.cluster[i] == p.cluster[prev]) return i; }
   }
   if (!p.hot.empty() && r.chance(0.6)) return p.hot[r.below(p.hot.size())];
   return (int)r.below(p.calls.size());
}

// concurrent callers (C01), faults within calls (C02), arguments under concurrency (C04)
static bool wl_concurrent(Ctx& x, Rng& r, bool faults) {
   Pool p; std::string err; Call bad;
   unsigned ck = x.prop == "C04" ? CK_ARGS : CK_RESULT | CK_WORK;
   if (!make_pool(r, p, 7, 6, 0.7, true, err, bad)) return bad_pristine(x, bad, err, ck);
   int K = x.scale;
   for (int k = 0; k < K; k++) {
      Scenario s; s.prop = x.prop; s.checks = ck; s.seed = r.next();
      s.calls = p.calls;
      int kind = faults ? (int)r.below(4) : 9;
      s.nthreads = faults ? (kind == 0 ? 1 : kind == 1 ? 2 : 1 + (int)r.below(3)) : 2 + (int)r.below(r.chance(0.3) ? 4 : 2);
      s.conts.resize(s.nthreads);
      int prev = -1;
      std::vector<int> depth;
      auto add_op = [&](int cont, int d) {
         Op o; o.call = pool_pick(r, p, prev); o.amb = r.chance(0.3) ? r.next() | 1 : 0; prev = o.call;
         s.ops.push_back(o); depth.push_back(d); s.conts[cont].push_back((int)s.ops.size() - 1);
      };
      int nops = 1 + (int)r.below(4);
      // a history before the events, or a storm: the same few calls disturbed again and again
      bool storm = faults && r.chance(0.12);
      size_t first = 0;
      if (!storm && r.chance(0.06)) { int m = 10 + (int)r.below(150); while (m--) add_op(0, 0); first = s.ops.size(); }
      if (storm) {
         int m = 8 + (int)r.below(r.chance(0.3) ? 250 : 50), kinds = 1 + (int)r.below(2); double dens = r.chance(0.5) ? 1 : r.uni(0.3, 1);
         int few[3], nf = 1 + (int)r.below(3); for (int q = 0; q < nf; q++) few[q] = prev = pool_pick(r, p, prev);
         int kd[2]; for (int q = 0; q < 2; q++) { static const int ks[] = {EV_SIGNAL, EV_ABANDON, EV_ABANDON, EV_FORK, EV_SWITCH}; kd[q] = ks[r.below(s.nthreads > 1 ? 5 : 4)]; }
         for (int i = 0; i < m; i++) {
            int t = s.nthreads > 1 && r.chance(0.3) ? 1 : 0;
            prev = few[r.below(nf)];
            Op o; o.call = prev; s.ops.push_back(o); depth.push_back(0); s.conts[t].push_back((int)s.ops.size() - 1);
            if (!r.chance(dens)) continue;
            Ev e; e.op = (int)s.ops.size() - 1; e.kind = kd[r.below(kinds)];
            if (e.kind == EV_FORK && !r.chance(0.2)) e.kind = EV_ABANDON;
            e.at = event_point(r, p.cold[prev], p.warm[prev], e.byhot);
            if (e.kind == EV_SWITCH) e.arg = (int)r.below(s.nthreads);
            if (e.kind == EV_SIGNAL || e.kind == EV_FORK) { e.cont = (int)s.conts.size(); s.conts.emplace_back(); Op h; h.call = few[r.below(nf)]; s.ops.push_back(h); depth.push_back(1); s.conts[e.cont].push_back((int)s.ops.size() - 1); }
            s.evs.push_back(e);
         }
         // observers: every call of the storm and some of its relatives
         for (int t = 0; t < std::min(2, s.nthreads); t++) { for (int q = 0; q < nf; q++) { Op o; o.call = few[q]; s.ops.push_back(o); depth.push_back(0); s.conts[t].push_back((int)s.ops.size() - 1); } prev = few[0]; for (int q = 0; q < 6; q++) add_op(t, 0); }
      } else
      for (int t = 0; t < s.nthreads; t++) { int m = 1 + (int)r.below(nops); for (int i = 0; i < m; i++) add_op(t, 0); }
      bool en[EV_NKINDS] = {false, false, false, false, false};
      if (faults) { for (int i = 0; i < EV_NKINDS; i++) en[i] = r.chance(0.5); if (s.nthreads < 2) en[EV_SWITCH] = en[EV_STALL] = false; if (s.nthreads > 2) en[EV_FORK] = en[EV_FORK] && r.chance(0.3); if (!en[1] && !en[2] && !en[3] && !en[4]) en[r.chance(0.5) ? EV_SIGNAL : EV_ABANDON] = true; }
      else en[EV_SWITCH] = true;
      int nev = 1 + (int)r.below(r.chance(0.3) ? 12 : 5);
      for (int i = 0; i < nev && s.ops.size() < first + 60 && !storm; i++) {
         Ev e; e.op = (int)(first + r.below(s.ops.size() - first));
         int c = s.ops[e.op].call;
         e.at = event_point(r, p.cold[c], p.warm[c], e.byhot);
         do e.kind = (int)r.below(EV_NKINDS); while (!en[e.kind]);
         if (depth[e.op] >= 2 && (e.kind == EV_SIGNAL || e.kind == EV_FORK)) continue;
         if (depth[e.op] >= 1 && e.kind == EV_STALL) continue;
         if (e.kind == EV_SWITCH) e.arg = (int)r.below(s.nthreads);
         if (e.kind == EV_FORK) e.arg = (int)r.below(2);
         if (e.kind == EV_SIGNAL || e.kind == EV_FORK || (e.kind == EV_ABANDON && r.chance(0.3))) {
            e.cont = (int)s.conts.size(); s.conts.emplace_back();
            prev = c;
            int m = 1 + (int)r.below(2); for (int q = 0; q < m; q++) add_op(e.cont, depth[e.op] + 1);
         }
         s.evs.push_back(e);
      }
      // something must be left to observe the effect of a fault
      if (faults) for (int t = 0; t < s.nthreads; t++) if (!s.conts[t].empty()) { prev = s.ops[s.conts[t].back()].call; int m = 1 + (int)r.below(2); while (m--) add_op(t, 0); }
      if (!submit(x, s, &p.cold, true)) return false;
   }
   return true;
}

static u64 marathon;      // functions take turns

// histories (C03), also with failing resources and a small stack (C07)
static bool wl_history(Ctx& x, Rng& r) {
   Pool p; std::string err; Call bad;
   unsigned ck = CK_RESULT | (x.prop == "C07" ? CK_IO : 0);
   GenOpt o;
   bool broad = r.chance(0.4);
   if (!make_pool(r, p, broad ? 40 : 6, broad ? 2 : 8, 0.6, true, err, bad, o)) return bad_pristine(x, bad, err, ck);
   for (int k = 0; k < x.scale; k++) {
      Scenario s; s.prop = x.prop; s.checks = ck; s.seed = r.next(); s.calls = p.calls; s.conts.resize(1);
      int n = x.prop == "C07" ? 5 + (int)r.below(60) : r.chance(0.25) ? 400 + (int)r.below(1500) : 2 + (int)r.below(120);
      double pamb = r.chance(0.3) ? 0 : r.uni();
      int prev = -1;
      for (int i = 0; i < n; i++) { Op q; q.call = pool_pick(r, p, prev); prev = q.call; q.amb = r.chance(pamb) ? r.next() | 1 : 0; s.ops.push_back(q); s.conts[0].push_back(i); }
      if (x.prop == "C07") {
         // each kind of fault alone and all together
         int m = (int)r.below(6);
         if (m == 0 || m >= 4) { s.allocmode = 1 + (int)r.below(4); s.allocarg = s.allocmode == 3 ? r.next() : 1 + r.below(4); }
         if (m == 1 || m >= 4) { s.seccomp = 1; if (!s.allocarg) s.allocarg = r.next(); }
         if (m == 2 || m >= 3) s.stacklim = 32768;
      } else if (r.chance(0.1)) s.reps = 2 + r.below(20);
      if (!submit(x, s, &p.cold, false)) return false;
   }
   // long history: the same few calls over and over
   if (x.prop == "C03") {
      Scenario s; s.prop = x.prop; s.checks = ck; s.seed = r.next(); s.calls = p.calls; s.conts.resize(1);
      int n = 64; int prev = -1;
      u64 steps = 0;
      for (int i = 0; i < n; i++) { Op q; q.call = pool_pick(r, p, prev); prev = q.call; q.amb = 0; s.ops.push_back(q); s.conts[0].push_back(i); steps += p.cold[q.call].steps + 300; }
      s.reps = x.thorough ? 40000 : is_inst() ? 200 : 2500;
      (void)steps;
      if (!submit(x, s, &p.cold, false)) return false;
      // marathon: one to four related calls of one function, more often than small counters can count
      Pool q; GenOpt g; g.fn = marathon++ % nfns(); g.mode = r.chance(0.8) ? G_FINITE : G_ANY;
      for (int tries = 0; tries < 50; tries++) {
         q = Pool(); Call b = gen_call(r, g); q.calls.push_back(b); q.cluster.push_back(0);
         int m = (int)r.below(4); while (m--) { Call c; relate(r, b, c); q.calls.push_back(c); q.cluster.push_back(0); }
         u64 cost = 0;
         for (auto& c : q.calls) {
            Slot a; pristines++;
            if (!pristine(c, a, nullptr, err)) return bad_pristine(x, c, err, ck);
            q.cold.push_back(a); cost += a.steps + 100 * a.libm_calls + 300;
         }
         if (!is_inst() || cost < 3000) break;      // cheap calls can be repeated more often
      }
      Scenario t; t.prop = x.prop; t.checks = ck; t.seed = r.next(); t.calls = q.calls; t.conts.resize(1);
      for (size_t i = 0; i < q.calls.size(); i++) { Op o; o.call = (int)i; t.ops.push_back(o); t.conts[0].push_back((int)i); }
      t.reps = is_inst() ? 3000 : (x.thorough ? 3000000 : !general(fn(g.fn)) && r.chance(0.15) ? 2200000 : 200000) / q.calls.size() + (q.calls.size() > 1 ? 66000 : 0);
      if (!submit(x, t, &q.cold, false)) return false;
   }
   return true;
}

// arbitrary initial environments (C05)
static bool wl_environment(Ctx& x, Rng& r) {
   for (int k = 0; k < x.scale; k++) {
      Scenario s; s.prop = x.prop; s.checks = CK_ENV | CK_STATE; s.seed = r.next(); s.conts.resize(1);
      int n = is_inst() ? 30 : 300;
      for (int i = 0; i < n; i++) {
         Call c = gen_call(r, GenOpt());
         c.env = rand_env(r, 0.2);
         if (r.chance(0.5)) c.env.pend = r.below(64);
         if (r.chance(0.25)) c.env.pc = r.below(3);
         s.calls.push_back(c); Op q; q.call = i; q.amb = r.next() | 1; s.ops.push_back(q); s.conts[0].push_back(i);
      }
      // enable traps that the masked call does not raise: measured first
      Scenario m = s; m.checks = 0; m.prop = "probe";
      for (auto& c : m.calls) c.env.pend = 0;
      Violation v = run_scenario(m, nullptr);
      if (v.kind) { x.found.any = true; m.prop = x.prop; m.checks = s.checks; x.found.sc = m; x.found.v = v; return false; }
      for (int i = 0; i < n; i++) if (r.chance(0.4)) { unsigned ok = (X_INVALID | X_DIVZERO | X_OVERFLOW) & ~shm->slot[i].raised; s.calls[i].env.traps = r.next() & ok; }
      if (is_inst()) {
         int ne = 1 + (int)r.below(12);
         for (int i = 0; i < ne; i++) { Ev e; e.op = (int)r.below(n); e.at = 1 + r.below(shm->slot[e.op].steps + 1); e.kind = EV_ABANDON; s.evs.push_back(e); }
      }
      if (!submit(x, s, nullptr, false)) return false;
      evaluations += n - 1; nontrivial += n - 1;
      for (auto& c : s.calls) distinct.insert(hash_bytes(call_ser(c).data(), call_ser(c).size(), 7));
   }
   return true;
}

// bounded work (C06): hill climbing on the number of steps
static bool wl_work(Ctx& x, Rng& r) {
   std::vector<std::pair<u64, Call>> top;
   for (int k = 0; k < x.scale; k++) {
      Scenario s; s.prop = x.prop; s.seed = r.next(); s.cap = 1000000; s.conts.resize(1);
      int n = 200;
      for (int i = 0; i < n; i++) {
         Call c;
         if (!top.empty() && r.chance(0.3)) { c = top[r.below(top.size())].second; mutate_call(r, c); if (r.chance(0.5)) c.env = rand_env(r, 0); }
         else { c = gen_call(r, GenOpt()); c.env = rand_env(r, 0.25); }
         s.calls.push_back(c); Op q; q.call = i; s.ops.push_back(q); s.conts[0].push_back(i);
      }
      if (!submit(x, s, nullptr, false)) return false;
      evaluations += n - 1; nontrivial += n - 1;
      for (int i = 0; i < n; i++) { top.push_back({shm->slot[i].steps, s.calls[i]}); std::string z = call_ser(s.calls[i]); distinct.insert(hash_bytes(z.data(), z.size(), 7)); }
      std::sort(top.begin(), top.end(), [](auto& a, auto& b) { return a.first > b.first; });
      // keep the best of every function
      std::map<int, int> cnt; std::vector<std::pair<u64, Call>> kept;
      for (auto& t : top) if (cnt[t.second.fn]++ < 4) kept.push_back(t);
      top.swap(kept);
   }
   return true;
}

// environment histories with numerical invariants (C09 - C15)
static bool wl_numeric(Ctx& x, Rng& r) {
   const std::string& P = x.prop;
   unsigned ck = P == "C12" ? CK_SPECIAL : P == "C13" ? CK_AGREE : P == "C14" ? CK_FLAGS : P == "C15" ? CK_SYM : P == "C18" ? CK_REAL : CK_ACC;
   static std::vector<int> cand;
   if (cand.empty()) for (int i = 0; i < nfns(); i++) {
      const api_fn& f = fn(i);
      int w = 1;
      if (P == "C09" && !(f.fam == F_LI && f.order)) w = 0;
      if (P == "C10") w = f.fam == F_LI ? 0 : general(f) ? 6 : 1;
      if (P == "C11" && !(f.fam == F_LI && general(f))) w = 0;
      if (P == "C12" || P == "C14" || P == "C15") w = general(f) ? 5 : 1;
      if (P == "C13") w = general(f) ? (f.fam == F_SL ? 0 : 3) : 1;
      if (P == "C18") w = f.fam != F_LI || !f.cplx ? 0 : general(f) ? 2 : 1;
      while (w--) cand.push_back(i);
   }
   for (int k = 0; k < x.scale; k++) {
      Scenario s; s.prop = P; s.checks = ck; s.seed = r.next(); s.conts.resize(1);
      int n = P == "C14" || P == "C15" || P == "C12" || P == "C13" || P == "C18" ? 1000 : 400;
      Env env;
      for (int i = 0; i < n; i++) {
         // environment events between the calls
         if (r.chance(0.15)) { env = rand_env(r, 0.25); if (P == "C14") env.ftz = 0, env.libm = 0; if (P == "C15") env.rm = 0; }
         GenOpt o; o.fn = cand[r.below(cand.size())];
         const api_fn& f = fn(o.fn);
         o.mode = G_FINITE;
         // all finite arguments up to 5 % below the largest number
         o.lgmin = f.prec == P_FLOAT ? -45 : f.prec == P_DOUBLE ? -323.5 : -4950.5;
         o.lgmax = f.prec == P_FLOAT ? 38.505 : f.prec == P_DOUBLE ? 308.23 : 4932.04;
         if (f.fam != F_LI) { o.lgmax = 12; if (general(f)) { o.nlo = 1; o.nhi = r.chance(0.7) ? 100 : INT64_MAX; } }
         else if (general(f)) { o.nlo = P == "C11" ? -1500 : -20; o.nhi = r.chance(0.7) ? 100 : INT64_MAX; }
         if (P == "C10" && r.chance(0.1)) { o.lgmin = 12; o.lgmax = f.prec == P_DOUBLE ? 308 : 4932; }
         if (P == "C12") { o = GenOpt(); o.fn = cand[r.below(cand.size())]; }
         if ((P == "C13" || P == "C18") && general(f)) { o.nlo = 2; o.nhi = 6; }
         if (P == "C18") o.lgmin = o.lgmax = 0;
         if (P == "C14") { if (f.fam == F_LI && f.cplx && (f.order == 2 || general(f))) { o.lgmax = f.prec == P_FLOAT ? 18 : f.prec == P_LDOUBLE ? 2400 : 150; } else o.lgmax = (f.prec == P_FLOAT ? 38.5 : f.prec == P_DOUBLE ? 308.2 : 4932) - f.cplx; if (f.fam != F_LI) o.lgmin = -4950; if (general(f)) { o.nlo = f.fam == F_LI ? -1500 : 1; o.nhi = r.chance(0.7) ? 100 : INT64_MAX; } }
         if (P == "C15") { o.lgmin = o.lgmax = 0; if (general(f)) { o.nlo = INT64_MIN; o.nhi = INT64_MAX; } }
         Call c = gen_call(r, o);
         if (!in_range(c, o)) continue;
         const api_fn& g = fn(c.fn);
         if (P == "C18") { if (r.chance(0.3)) c.a[0] = gen_mod(r, f.prec, -20, 20) * (r.chance(0.5) ? 1 : -1); c.a[1] = r.chance(0.5) ? 0.0L : -0.0L; round_arg(c); }
         if (P == "C12" && r.chance(0.8)) {      // special arguments
            static const LD v[] = {0.0L, -0.0L, 1.0L, -1.0L};
            switch (r.below(5)) {
            case 0: c.a[0] = v[r.below(4)]; c.a[1] = v[r.below(2)]; break;
            case 1: c.a[0] = v[r.below(4)]; c.a[1] = v[r.below(2)]; if (general(g)) { c.n = r.chance(0.5) ? r.range(-12, 60) : r.range(-300, 1200); if (r.chance(0.1)) c.n = (i64)r.next(); } break;
            case 2: c.a[r.below(2)] = __builtin_nanl(""); break;
            case 3: c.a[r.below(2)] = r.chance(0.5) ? HUGE_VALL : -HUGE_VALL; if (r.chance(0.3)) c.a[r.below(2)] = r.chance(0.5) ? __builtin_nanl("") : HUGE_VALL; break;
            default: if (general(g) && g.fam != F_LI) c.n = r.chance(0.5) ? r.range(-50, 0) : -(i64)exp2(r.uni(0, 62.9)); break;
            }
            round_arg(c);
         }
         if (P == "C13" && r.chance(0.04)) { c.a[r.below(2)] = __builtin_nanl(""); if (r.chance(0.3)) c.a[r.below(2)] = v_names[0] ? HUGE_VALL : 0; round_arg(c); if (!std::isnan(c.a[0]) && !std::isnan(c.a[1])) continue; }
         if (P == "C14" && f.fam == F_LI && c.a[0] == 1 && c.a[1] == 0 && order_of(c) <= 1) continue;
         if (P == "C14" && near_overflow(c)) continue;
         c.env = env;
         if (P == "C14" && r.chance(0.5)) c.env.traps = X_INVALID | X_DIVZERO | X_OVERFLOW;
         std::string z = call_ser(c);
         s.calls.push_back(c); Op q; q.call = (int)s.calls.size() - 1; s.ops.push_back(q); s.conts[0].push_back((int)s.ops.size() - 1);
         evaluations++; nontrivial++; distinct.insert(hash_bytes(z.data(), z.size(), 7));
      }
      evaluations--; nontrivial--;
      if (!submit(x, s, nullptr, false)) return false;
   }
   return true;
}

static bool batch(Ctx& x, u64 b) {
   Rng r(mix(mix(x.seed, hash_bytes(x.prop.data(), x.prop.size(), 3)), ((u64)x.worker << 32) + b + (is_inst() ? 0x8000000 : 0)));
   const std::string& P = x.prop;
   if (P == "C01") return wl_concurrent(x, r, false);
   if (P == "C02") return wl_concurrent(x, r, true);
   if (P == "C04") return wl_concurrent(x, r, r.chance(0.5));
   if (P == "C03" || P == "C07") return wl_history(x, r);
   if (P == "C05") return wl_environment(x, r);
   if (P == "C06") return wl_work(x, r);
   return wl_numeric(x, r);
}

static std::string jstr(const std::string& s) {
   std::string o = "\"";
   for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
   return o + "\"";
}

int main(int argc, char** argv) {
   if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
      personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
   }
   std::map<std::string, std::string> a; std::vector<std::string> pos;
   for (int i = 1; i < argc; i++) { std::string k = argv[i]; if (k.rfind("--", 0) == 0 && i + 1 < argc) a[k.substr(2)] = argv[++i]; else pos.push_back(k); }
   if (pos.empty()) { fprintf(stderr, "usage: sim run|replay|discover|merge ...\n"); return 2; }
   exec_init();
   if (pos[0] == "discover") return discover(strtoull(a["seed"].c_str(), nullptr, 10), strtoull(a["budget"].c_str(), nullptr, 10), a["out"].c_str(), a.count("in") ? a["in"].c_str() : nullptr);
   if (pos[0] == "merge") {
      std::vector<u64> v;
      for (size_t i = 1; i < pos.size(); i++) { std::ifstream f(pos[i], std::ios::binary); u64 x; while (f.read((char*)&x, 8)) v.push_back(x); }
      std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
      printf("%zu\n", v.size()); return 0;
   }
   if (pos[0] == "replay") return replay(pos.at(1).c_str(), false);
   if (pos[0] == "minimise") {
      std::ifstream f(pos.at(1)); std::stringstream b; b << f.rdbuf(); Scenario s; if (!s.parse(b.str())) return 3;
      Violation v = run_full(s); if (v.kind <= 0) { printf("no violation\n"); return 0; }
      minimise(s, v, 60); save_replay(pos.at(2), s, v); return 1;
   }
   if (pos[0] != "run") return 2;
   Ctx x; x.prop = a["prop"]; x.seed = strtoull(a["seed"].c_str(), nullptr, 10); x.worker = atoi(a["worker"].c_str());
   x.batches = strtoull(a["batches"].c_str(), nullptr, 10); x.scale = atoi(a["scale"].c_str()); x.thorough = a.count("thorough");
   if (a.count("corpus")) corpus.load(a["corpus"].c_str());
   marathon = x.worker * 15 + x.seed;
   double t0 = now(); u64 done = 0; int rc = 0;
   double tlimit = a.count("time") ? atof(a["time"].c_str()) : 1e18;
   u64 runhash = 0;
   for (u64 b = 0; b < x.batches && now() - t0 < tlimit; b++) {
      bool ok = batch(x, b); done++;
      runhash = mix(runhash, shm->hash);
      if (!ok) break;
   }
   double t1 = now();
   if (x.found.any) {
      Scenario s = x.found.sc; Violation v = x.found.v;
      std::string f = a["replay"];
      if (v.kind < 0) { printf("INTERNAL %s\n", v.msg.c_str()); save_replay(f, s, v); rc = 3; }
      else {
         // gate: the same scenario must fail identically again
         Violation w = run_full(s);
         if (w.kind != v.kind) { printf("INTERNAL not reproducible: first %d %s, then %d %s\n", v.kind, v.msg.c_str(), w.kind, w.msg.c_str()); save_replay(f, s, v); rc = 3; }
         else {
            v = w;
            save_replay(f + ".full", s, v);
            minimise(s, v, 25);
            Violation c1 = run_full(s), c2 = run_full(s);
            if (c1.kind != v.kind || c2.kind != v.kind || c1.hash != c2.hash) { printf("INTERNAL minimised scenario is not deterministic\n"); rc = 3; }
            else { v = c1; save_replay(f, s, v); printf("FOUND %s\n%s", f.c_str(), describe(s, v).c_str()); rc = 1; }
         }
      }
   }
   if (a.count("hashes")) { std::ofstream f(a["hashes"], std::ios::binary); for (u64 h : distinct) f.write((const char*)&h, 8); }
   std::string j = "{";
   auto num = [&](const char* k, double v) { char b[128]; snprintf(b, sizeof b, "\"%s\": %.17g, ", k, v); j += b; };
   num("runs", runs); num("batches", done); num("evaluations", evaluations); num("nontrivial", nontrivial); num("isolated_runs", pristines);
   num("search_s", t1 - t0); num("max_steps", maxsteps); num("max_stack", maxstack);
   j += "\"runhash\": \"" + std::to_string(runhash) + "\", ";
   j += "\"max_steps_call\": " + jstr(maxsteps_call) + ", \"stats\": {";
   for (int i = 0; i < ST_N; i++) { char b[96]; snprintf(b, sizeof b, "%s\"%s\": %llu", i ? ", " : "", st_names[i], (unsigned long long)total[i]); j += b; }
   j += "}, \"max_error\": {"; bool first = true;
   for (int i = 0; i < nfns(); i++) for (int d = 0; d < 2; d++) if (double m = maxerr[i + 128 * d]) { char b[96]; snprintf(b, sizeof b, "%s\"%s%s\": %.4g", first ? "" : ", ", fn(i).name, d ? "@default" : "", m); j += b; first = false; }
   j += "}, \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) j += (i ? ", " : "") + jstr(samples[i]);
   j += "]}";
   printf("JSON %s\n", j.c_str());
   return rc;
}
