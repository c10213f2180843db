// Orchestrator of simulated process lives (C08): generates seeded lives, runs
// each in a fresh process, compares every result with the normal one
#include "core.hpp"
#include "life/life.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + 1e-6 * t.tv_usec; }

static const char* ph_names[PH_ALL] = {"preinit_array function", "constructor(101)", "constructor", "initialisation of a static object", "main", "destruction of a static object",
   "destructor", "last destructor", "destructor(102)", "constructor(101) of a shared library", "initialisation of a static object of a shared library",
   "destruction of a static object of a shared library", "destructor of a shared library",
   "exit handler", "quick-exit handler", "thread", "thread-exit destructor", "thread-specific-data destructor", "signal handler", "forked child"};
static const char* a_names[A_NKINDS] = {"call", "call-so", "atexit", "at-quick-exit", "thread", "resume", "finish", "tls", "key", "signal", "fork", "dlopen", "dlclose", "closefd", "setsid"};
static const char* end_names[END_N] = {"return", "exit", "exit-in-thread", "quick_exit", "exit-in-signal", "_exit", "pthread_exit"};

struct Variant { std::string path, desc; };
static std::vector<Variant> exes, sos;
static std::string life_id;

struct Life {
   u64 seed = 0; int exe = 0, end = 0; std::vector<Call> calls; std::vector<std::vector<LAct>> blocks{{}}; int fixed[PH_N] = {0};
   std::string ser() const {
      std::string s = "life " + life_id + "\nseed " + std::to_string(seed) + "\nexe " + std::to_string(exe) + "   # " + (exe < (int)exes.size() ? exes[exe].desc : "?") + "\nend " + end_names[end] + "\n";
      for (auto& c : calls) s += "call " + call_ser(c) + "   # " + call_str(c) + "\n";
      for (int i = 0; i < PH_N; i++) if (fixed[i]) s += "phase " + std::to_string(i) + " " + std::to_string(fixed[i]) + "   # " + ph_names[i] + "\n";
      for (size_t b = 1; b < blocks.size(); b++) for (auto& a : blocks[b]) {
         char t[160]; snprintf(t, sizeof t, "act %zu %s %d %d %d\n", b, a_names[a.kind], a.a, a.b, a.c); s += t;
      }
      return s;
   }
   bool parse(const std::string& text) {
      *this = Life(); std::istringstream in(text); std::string l; bool ok = false;
      while (std::getline(in, l)) {
         if (l.empty() || l[0] == '#') continue;
         std::istringstream w(l); std::string k; w >> k;
         if (k == "life") ok = true;
         else if (k == "seed") w >> seed;
         else if (k == "exe") w >> exe;
         else if (k == "end") { std::string e; w >> e; for (int i = 0; i < END_N; i++) if (e == end_names[i]) end = i; }
         else if (k == "call") { Call c; if (!call_parse(l.c_str() + 5, c)) return false; calls.push_back(c); }
         else if (k == "phase") { int p, b; w >> p >> b; if (p < 0 || p >= PH_N) return false; fixed[p] = b; }
         else if (k == "act") {
            size_t b; std::string n; LAct a; w >> b >> n >> a.a >> a.b >> a.c; a.kind = -1;
            for (int i = 0; i < A_NKINDS; i++) if (n == a_names[i]) a.kind = i;
            if (a.kind < 0 || b >= LMAXBLOCK) return false;
            if (blocks.size() <= b) blocks.resize(b + 1);
            blocks[b].push_back(a);
         }
      }
      return ok && exe < (int)exes.size();
   }
};

// ---- running one life -------------------------------------------------------
static LFile* F; static int fd = -1;
struct Out { int kind = 0; std::string msg; u64 hash = 0; int rec = -1; };
enum { K_NONE = 0, K_RESULT = 1, K_CRASH = 2, K_BLOCKED = 3, K_EXIT = 9 };

static void init_file() {
   fd = memfd_create("life", 0);
   if (fd < 0 || ftruncate(fd, sizeof(LFile))) { perror("memfd"); exit(3); }
   int g = fcntl(fd, F_DUPFD, 50); close(fd); fd = g;
   fcntl(fd, F_SETFD, FD_CLOEXEC);
   F = (LFile*)mmap(nullptr, sizeof(LFile), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   if (F == MAP_FAILED) { perror("mmap"); exit(3); }
}

static int tmo = 20000;   // wall-clock limit of one life, in milliseconds
static u64 totals_phase[PH_ALL], totals_act[A_NKINDS], runs, discarded;
static bool control;     // run the control variants, which do not contain the library

static std::string ctl_path(const std::string& p) { size_t k = p.rfind('/'); return p.substr(0, k) + "/control" + p.substr(k); }

static int spawn(const Life& f, int& status) {
   int n = F->nrec; if (n > LMAXREC) n = LMAXREC;
   memset(F->rec, 0, sizeof(LRec) * n);
   F->nrec = F->ended = F->mainpid = F->fail = 0;
   memset((void*)F->count, 0, sizeof F->count); memset((void*)F->phase, 0, sizeof F->phase);
   F->ncalls = (int)f.calls.size(); F->end = f.end; F->nblocks = (int)f.blocks.size(); memcpy(F->fixed, f.fixed, sizeof F->fixed);
   if (f.calls.size() > LMAXCALL || f.blocks.size() > LMAXBLOCK) return 3;
   for (size_t i = 0; i < f.calls.size(); i++) {
      LCall& c = F->calls[i]; memset(&c, 0, sizeof c);
      c.fn = f.calls[i].fn; c.rm = f.calls[i].env.rm; c.ftz = f.calls[i].env.ftz; c.n = f.calls[i].n; store_arg(f.calls[i], c.arg);
   }
   int k = 0;
   for (size_t b = 0; b < f.blocks.size(); b++) {
      F->blocks[b].first = k; F->blocks[b].count = (int)f.blocks[b].size();
      for (auto& a : f.blocks[b]) { if (k >= LMAXACT) return 3; F->acts[k++] = a; }
   }
   F->nacts = k;
   for (size_t i = 0; i < sos.size() && i < LMAXSO; i++) snprintf(F->so[i], sizeof F->so[i], "%s", (control ? ctl_path(sos[i].path) : sos[i].path).c_str());
   std::string pathstr = control ? ctl_path(exes[f.exe].path) : exes[f.exe].path;
   const char* path = pathstr.c_str();
   char* argv[] = {(char*)"life", nullptr};
   int out = open("/dev/null", O_RDWR | O_CLOEXEC);
   int pid = fork();
   if (pid == 0) {
      setpgid(0, 0);
      if (!getenv("LIFE_DEBUG")) { dup2(out, 0); dup2(out, 1); dup2(out, 2); }
      dup2(fd, LIFE_FD);
      execv(path, argv);
      _exit(93);
   }
   close(out);
   int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
   struct pollfd p = {pfd, POLLIN, 0};
   int r = pfd < 0 ? 1 : poll(&p, 1, tmo);
   if (r == 0) kill(-pid, SIGKILL), kill(pid, SIGKILL);
   waitpid(pid, &status, 0);
   kill(-pid, SIGKILL);
   if (pfd >= 0) close(pfd);
   if (control) return r == 0 ? 2 : 0;
   runs++;
   for (int i = 0; i < PH_ALL; i++) totals_phase[i] += F->phase[i];
   for (int i = 0; i < A_NKINDS; i++) totals_act[i] += F->count[i];
   return r == 0 ? 2 : 0;
}

static std::string stat_str(int st) {
   char b[100];
   if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
   else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
   return b;
}

static std::string last_started() {
   int n = std::min<int>((int)F->nrec, (int)LMAXREC);
   for (int i = n - 1; i >= 0; i--) if (F->rec[i].state == 1) {
      char b[300]; snprintf(b, sizeof b, " in %s in %s", "%s", ph_names[F->rec[i].where]);
      std::string s = b; size_t p = s.find("%s");
      Call c; (void)c;
      return s.replace(p, 2, fn(F->calls[F->rec[i].call].fn).name);
   }
   return "";
}

static Out run(const Life& f, const std::vector<Res>* ex) {
   Out o; int st = 0;
   int r = spawn(f, st);
   if (r == 3) { o.kind = -1; o.msg = "scenario too large"; return o; }
   int n = std::min<int>((int)F->nrec, (int)LMAXREC);
   u64 h = 1469598103u;
   auto bad = [&](int kind, int rec, const std::string& m) { if (!o.kind) { o.kind = kind; o.msg = m; o.rec = rec; } };
   for (int i = 0; i < n; i++) {
      const LRec& q = F->rec[i];
      h = mix(h, ((u64)q.where << 40) ^ ((u64)q.state << 32) ^ ((u64)q.act << 16) ^ (u64)(q.call + 1) ^ ((u64)q.pid << 60));
      if (q.state == 2) {
         const api_fn& g = fn(f.calls[q.call].fn);
         Res v = canon(g, q.res);
         h = hash_bytes(v.b, 32, h);
         if (ex && v != (*ex)[q.call]) bad(K_RESULT, i, call_str(f.calls[q.call]) + " in a " + ph_names[q.where] + " = " + res_str(g, v) + ", normally " + res_str(g, (*ex)[q.call]));
      } else if (q.state == 3) {
         h = mix(h, q.status);
         if (WIFSIGNALED(q.status) || (WEXITSTATUS(q.status) >= 93 && WEXITSTATUS(q.status) <= 97)) bad(WIFSIGNALED(q.status) ? K_CRASH : -1, i, "forked child: " + stat_str(q.status) + last_started());
         else bad(K_EXIT, i, "forked child: " + stat_str(q.status) + last_started());
      }
   }
   if (r == 2) bad(K_BLOCKED, -1, "the process does not end" + last_started());
   else if (WIFSIGNALED(st)) bad(K_CRASH, -1, stat_str(st) + last_started());
   else if (WEXITSTATUS(st) >= 93 && WEXITSTATUS(st) <= 97) { o.kind = -1; o.msg = "driver: " + stat_str(st); }
   else if (WEXITSTATUS(st) || !F->ended) bad(K_EXIT, -1, "the process ended early: " + stat_str(st) + last_started());
   o.hash = mix(h, r == 2 ? 77 : st);
   if (o.kind > K_RESULT && !control) {        // does the same life fail without the library?
      static LFile keep; memcpy(&keep, F, sizeof keep);
      control = true; Out c = run(f, nullptr); control = false;
      memcpy((void*)F, &keep, sizeof keep);
      if (c.kind) { discarded++; o.kind = 0; o.msg = "discarded: also without the library: " + c.msg; }
   }
   return o;
}

// normal results: every call as the only one of a forked child of main
static u64 isolated;
static bool normal(const std::vector<Call>& calls, std::vector<Res>& ex, Out& o) {
   Life f; f.calls = calls; f.exe = 0; f.fixed[PH_MAIN] = 1; f.blocks.resize(2);
   for (size_t i = 0; i < calls.size(); i++) {
      f.blocks[1].push_back({A_FORK, (int)f.blocks.size(), 0, 0});
      f.blocks.push_back({{A_CALL, (int)i, 0, 0}});
      if (f.blocks.size() >= LMAXBLOCK) return false;
   }
   o = run(f, nullptr); isolated += calls.size();
   if (o.kind) return false;
   ex.assign(calls.size(), Res());
   std::vector<char> got(calls.size(), 0);
   for (int i = 0; i < F->nrec; i++) if (F->rec[i].state == 2) { ex[F->rec[i].call] = canon(fn(calls[F->rec[i].call].fn), F->rec[i].res); got[F->rec[i].call] = 1; }
   for (char g : got) if (!g) { o.kind = -1; o.msg = "reference run incomplete"; return false; }
   return true;
}

static Out run_full(const Life& f) {
   std::vector<Res> ex; Out o;
   if (f.calls.empty()) return run(f, nullptr);
   if (!normal(f.calls, ex, o)) { if (o.kind > 0) o.msg = "in main: " + o.msg; return o; }
   return run(f, &ex);
}

// ---- generation -----------------------------------------------------------------
struct Gen {
   Rng& r; Life& f; int dl, key;
   int budget = 120;
   int pick(int prev) { return prev >= 0 && r.chance(0.4) ? (int)std::min<u64>(f.calls.size() - 1, (u64)std::max<i64>(0, prev + r.range(-2, 2))) : (int)r.below(f.calls.size()); }
   int block(int ph, int depth) {
      int id = (int)f.blocks.size(); f.blocks.emplace_back();
      int n = 1 + (int)r.below(depth ? 3 : 5), prev = -1;
      bool so = ph >= PH_SO_CTOR && ph <= PH_SO_DTOR;
      for (int i = 0; i < n && budget > 0; i++) {
         LAct a{A_CALL, 0, 0, 0};
         budget--;
         int k = so || depth > 4 || r.chance(0.45) ? 0 : (int)r.below(20);
         bool late = (ph >= PH_STATIC_DTOR && ph < PH_N), early = ph == PH_PREINIT;
         int sub = ph;
         switch (k) {
         case 1: case 2: if (dl) { a.kind = A_CALLSO; a.b = (int)r.below(3); a.a = prev = pick(prev); break; } /* fall through */
         case 0: a.a = prev = pick(prev); break;
         case 3: case 4: a.kind = A_ATEXIT; sub = PH_ATEXIT; break;
         case 5: a.kind = A_QUICK; sub = PH_QUICK; break;
         case 6: case 7: a.kind = A_THREAD; a.b = (int)r.below(4); a.c = r.chance(0.5); sub = PH_THREAD; break;
         case 8: a.kind = A_RESUME; a.b = (int)r.below(4); sub = PH_THREAD; break;
         case 9: a.kind = A_FINISH; a.b = (int)r.below(4); break;
         case 10: case 11: a.kind = A_TLS; sub = PH_TLS; break;
         case 12: a.kind = A_KEY; sub = PH_KEY; break;
         case 13: a.kind = A_SIGNAL; a.b = r.chance(0.3); sub = PH_SIGNAL; break;
         case 14: case 15: a.kind = A_FORK; a.b = r.chance(0.5); sub = PH_FORK; break;
         case 16: case 17: a.kind = A_DLOPEN; a.a = (int)r.below(std::min<size_t>(sos.size(), LMAXSO)); a.b = (int)r.below(3); a.c = r.chance(0.12) ? 4 : (int)r.below(4); break;
         case 18: a.kind = A_DLCLOSE; a.b = (int)r.below(3); break;
         default: a.kind = r.chance(0.5) ? A_CLOSEFD : A_SETSID;
         }
         if ((a.kind == A_DLOPEN || a.kind == A_DLCLOSE) && (!dl || late || early || sub == PH_QUICK)) { a = LAct{A_CALL, 0, 0, 0}; a.a = prev = pick(prev); }
         if (a.kind == A_DLOPEN && r.chance(0.8)) { f.blocks[id].push_back(a); LAct c{A_CALLSO, pick(prev), a.b, 0}; f.blocks[id].push_back(c); if (r.chance(0.5)) { c.kind = A_DLCLOSE; c.a = 0; f.blocks[id].push_back(c); } continue; }
         if (late && (a.kind == A_THREAD || a.kind == A_RESUME) && r.chance(0.5)) { a = LAct{A_CALL, 0, 0, 0}; a.a = prev = pick(prev); }
         f.blocks[id].push_back(a);
         int at = (int)f.blocks[id].size() - 1;
         if (a.kind == A_ATEXIT || a.kind == A_QUICK || a.kind == A_THREAD || a.kind == A_RESUME || a.kind == A_TLS || a.kind == A_KEY || a.kind == A_SIGNAL || a.kind == A_FORK) {
            if (f.blocks.size() < LMAXBLOCK - 2) { int nb = block(sub, depth + 1); f.blocks[id][at].a = nb; }
         }
      }
      return id;
   }
};

static Life gen_life(Rng& r, const std::vector<Call>& calls) {
   Life f; f.calls = calls; f.seed = r.next();
   f.exe = (int)r.below(exes.size());
   double w = r.uni();
   f.end = w < 0.3 ? END_RETURN : (int)r.below(END_N);
   Gen g{r, f, exes[f.exe].desc.find("-static") == std::string::npos && !sos.empty() && r.chance(0.5), 0};
   double p = r.chance(0.3) ? 1 : r.uni(0.1, 0.8);
   for (int ph = 0; ph < PH_N; ph++) if (r.chance(ph == PH_MAIN ? std::max(p, 0.6) : p)) { g.budget = 12 + (int)r.below(40); f.fixed[ph] = g.block(ph, 0); if (f.blocks.size() > LMAXBLOCK - 40) break; }
   return f;
}

static std::vector<Call> gen_calls(Rng& r) {
   std::vector<Call> v;
   int n = 8 + (int)r.below(60);
   while ((int)v.size() < n) {
      Call b = gen_call(r, GenOpt());
      if (r.chance(0.3)) { b.env.rm = r.below(4); b.env.ftz = r.chance(0.3) ? 1 + r.below(3) : 0; }
      v.push_back(b);
      int m = (int)r.below(4);
      for (int i = 0; i < m && (int)v.size() < n; i++) {
         Call c = v.back(); const api_fn& f = fn(c.fn);
         if (r.chance(0.4)) { for (int t = 0; t < 20; t++) { int k = (int)r.below(nfns()); const api_fn& q = fn(k); if (q.fam == f.fam && q.cplx == f.cplx) { i64 o = order_of(c); c.fn = k; c.n = general(q) ? o + (r.chance(0.5) ? r.range(-2, 2) : 0) : 0; break; } } }
         else if (general(f) && r.chance(0.6)) c.n = r.chance(0.5) ? c.n + r.range(-2, 2) : r.range(-30, 60);
         else mutate_call(r, c);
         round_arg(c); v.push_back(c);
      }
   }
   return v;
}

// ---- minimisation ------------------------------------------------------------------
static Life compact(const Life& s) {
   Life t = s; std::vector<int> use(s.blocks.size(), 0), mb(s.blocks.size(), 0), mc(s.calls.size(), -1);
   auto hasb = [](int k) { return k == A_ATEXIT || k == A_QUICK || k == A_THREAD || k == A_RESUME || k == A_TLS || k == A_KEY || k == A_SIGNAL || k == A_FORK; };
   std::vector<int> todo;
   for (int i = 0; i < PH_N; i++) { if (s.fixed[i] && s.blocks[s.fixed[i]].empty()) t.fixed[i] = 0; if (t.fixed[i] && !use[t.fixed[i]]) { use[t.fixed[i]] = 1; todo.push_back(t.fixed[i]); } }
   while (!todo.empty()) { int b = todo.back(); todo.pop_back(); for (auto& a : s.blocks[b]) if (hasb(a.kind) && a.a > 0 && a.a < (int)use.size() && !use[a.a]) { use[a.a] = 1; todo.push_back(a.a); } }
   t.blocks.assign(1, {}); t.calls.clear();
   for (size_t b = 1; b < s.blocks.size(); b++) if (use[b]) { mb[b] = (int)t.blocks.size(); t.blocks.push_back(s.blocks[b]); }
   for (int i = 0; i < PH_N; i++) t.fixed[i] = mb[t.fixed[i]];
   for (auto& bl : t.blocks) for (auto& a : bl) {
      if (hasb(a.kind)) a.a = a.a < (int)mb.size() ? mb[a.a] : 0;
      else if (a.kind == A_CALL || a.kind == A_CALLSO) { if (mc[a.a] < 0) { mc[a.a] = (int)t.calls.size(); t.calls.push_back(s.calls[a.a]); } a.a = mc[a.a]; }
   }
   return t;
}

static void minimise(Life& s, Out& o, double budget) {
   double tend = now() + budget; int kind = o.kind; Life t;
   auto still = [&](const Life& q) { if (now() > tend) return false; Out w = run_full(q); if (w.kind != kind) return false; o = w; return true; };
   t = compact(s); if (still(t)) s = t;
   for (bool ch = true; ch && now() < tend;) {
      ch = false;
      for (int p = 0; p < PH_N; p++) if (s.fixed[p]) { t = s; t.fixed[p] = 0; t = compact(t); if (still(t)) { s = t; ch = true; } }
      for (size_t b = 1; b < s.blocks.size(); b++) for (int i = (int)s.blocks[b].size() - 1; i >= 0 && b < s.blocks.size(); i--) {
         if (i >= (int)s.blocks[b].size()) continue;
         t = s; t.blocks[b].erase(t.blocks[b].begin() + i); t = compact(t);
         if (still(t)) { s = t; ch = true; }
         if (now() > tend) break;
      }
      if (s.end) { t = s; t.end = 0; if (still(t)) { s = t; ch = true; } }
      if (s.exe) { t = s; t.exe = 0; if (still(t)) { s = t; ch = true; } }
      for (size_t i = 0; i < s.calls.size(); i++) if (!(s.calls[i].env == Env())) { t = s; t.calls[i].env = Env(); if (still(t)) { s = t; ch = true; } }
   }
}

static std::string describe(const Life& s, const Out& o) {
   (void)s;
   const char* k = o.kind == K_RESULT ? "result" : o.kind == K_CRASH ? "crash" : o.kind == K_BLOCKED ? "blocked" : "exit";
   return "# violation of C08: " + std::string(k) + ": " + o.msg + "\n";
}
static void save(const std::string& f, const Life& s, const Out& o) { std::ofstream w(f); w << describe(s, o) << "# flavour life\n# life " << life_id << "\n# expect " << o.kind << " " << o.hash << "\n" << s.ser(); }

static std::string jstr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }

int main(int argc, char** argv) {
   if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
      personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv);
   }
   std::map<std::string, std::string> a; std::vector<std::string> pos;
   for (int i = 1; i < argc; i++) { std::string k = argv[i]; if (k.rfind("--", 0) == 0 && i + 1 < argc) a[k.substr(2)] = argv[++i]; else pos.push_back(k); }
   if (pos.empty() || !a.count("dir")) return 2;
   { std::ifstream f(a["dir"] + "/index"); std::string l; while (std::getline(f, l)) { std::istringstream w(l); std::string k, p, d; w >> k >> p; std::getline(w, d); if (k == "id") life_id = p + d; else (k == "exe" ? exes : sos).push_back({a["dir"] + "/" + p, p + d}); } }
   if (exes.empty()) { fprintf(stderr, "no executables\n"); return 2; }
   unsetenv("LD_PRELOAD"); unsetenv("LD_BIND_NOW");
   init_file();
   if (pos[0] == "replay") {
      std::ifstream f(pos.at(1)); std::stringstream b; b << f.rdbuf(); Life s;
      if (!s.parse(b.str())) { printf("REPLAY error: cannot parse\n"); return 3; }
      Out o = run_full(s);
      printf("%sREPLAY kind=%d (%s) hash=%llu msg=%s\n", describe(s, o).c_str(), o.kind, o.kind ? "violation" : "none", (unsigned long long)o.hash, o.msg.c_str());
      return o.kind > 0 ? 1 : o.kind < 0 ? 3 : 0;
   }
   if (pos[0] != "run") return 2;
   if (a.count("corpus")) corpus.load(a["corpus"].c_str());
   u64 seed = strtoull(a["seed"].c_str(), nullptr, 10), worker = strtoull(a["worker"].c_str(), nullptr, 10), batches = strtoull(a["batches"].c_str(), nullptr, 10), scale = strtoull(a["scale"].c_str(), nullptr, 10);
   double tl = a.count("time") ? atof(a["time"].c_str()) : 1e18, t0 = now();
   std::unordered_set<u64> distinct; u64 runhash = 0, evals = 0, nontriv = 0, done = 0; std::vector<std::string> samples; std::map<std::string, u64> ends, ex_used; int rc = 0;
   Life bad; Out bo; bool found = false;
   for (u64 b = 0; b < batches && !found && now() - t0 < tl; b++, done++) {
      Rng r(mix(mix(seed, 0xC08), (worker << 32) + b));
      std::vector<Call> calls = gen_calls(r); std::vector<Res> ex; Out o;
      if (!normal(calls, ex, o)) { bad = Life(); bad.calls = calls; bo = o; found = true; break; }
      for (u64 k = 0; k < scale; k++) {
         Life f = gen_life(r, calls);
         o = run(f, &ex);
         runhash = mix(runhash, o.hash); evals++;
         ends[end_names[f.end]]++; ex_used[exes[f.exe].desc.substr(0, exes[f.exe].desc.find(' '))]++;
         u64 other = 0; for (int i = 0; i < PH_ALL; i++) if (i != PH_MAIN) other += F->phase[i];
         if (other) { nontriv++; distinct.insert(o.hash); if (samples.size() < 2) samples.push_back(compact(f).ser().substr(0, 4000)); }
         if (o.kind) { bad = f; bo = o; found = true; break; }
      }
   }
   if (found) {
      std::string f = a["replay"];
      if (bo.kind < 0) { printf("INTERNAL %s\n", bo.msg.c_str()); save(f, bad, bo); rc = 3; }
      else {
         Out w = run_full(bad);
         if (w.kind != bo.kind) { printf("INTERNAL not reproducible: %s / %s\n", bo.msg.c_str(), w.msg.c_str()); save(f, bad, bo); rc = 3; }
         else { save(f + ".full", bad, w); bo = w; tmo = 3000; minimise(bad, bo, 40); tmo = 20000; bo = run_full(bad); save(f, bad, bo); printf("FOUND %s\n%s", f.c_str(), describe(bad, bo).c_str()); rc = 1; }
      }
   }
   if (a.count("hashes")) { std::ofstream f(a["hashes"], std::ios::binary); for (u64 h : distinct) f.write((const char*)&h, 8); }
   std::ostringstream j;
   j << "{\"runs\": " << runs << ", \"batches\": " << done << ", \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv << ", \"isolated_runs\": " << isolated << ", \"search_s\": " << now() - t0
     << ", \"discarded\": " << discarded << ", \"max_steps\": 0, \"max_stack\": 0, \"runhash\": \"" << runhash << "\", \"max_steps_call\": \"\", \"stats\": {\"lives discarded because the control without the library fails\": " << discarded << ", \"operations\": " << [&] { u64 s = 0; for (u64 p : totals_phase) s += p; return s; }();
   for (int i = 0; i < PH_ALL; i++) j << ", " << jstr(std::string("calls in phase: ") + ph_names[i]) << ": " << totals_phase[i];
   for (int i = 2; i < A_NKINDS; i++) j << ", " << jstr(std::string("life-cycle events: ") + a_names[i]) << ": " << totals_act[i];
   for (auto& e : ends) j << ", " << jstr("process ends by: " + e.first) << ": " << e.second;
   for (auto& e : ex_used) j << ", " << jstr("lives of link variant: " + e.first) << ": " << e.second;
   j << "}, \"max_error\": {}, \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) j << (i ? ", " : "") << jstr(samples[i]); j << "]}";
   printf("JSON %s\n", j.str().c_str());
   return rc;
}
