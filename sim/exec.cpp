// Executes one scenario in a forked child process: simulated threads run one
// at a time under a baton, events fire at their logical times, every operation
// is checked when it completes.
#include "exec.hpp"
#include "rt.hpp"
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

const char* ev_names[] = {"switch", "signal", "abandon", "stall", "fork"};
const char* v_names[] = {"none", "result", "crash", "blocked", "unbounded", "argument-written", "environment", "flag-cleared",
   "process-state", "process-exit", "exception", "accuracy", "special-value", "disagreement", "symmetry", "trap", "io", "stack", "real-axis"};
const char* st_names[] = {"operations", "preemptions", "signal_reentries", "abandonments", "stalls", "forks", "forked_children_completed", "lock_waits",
   "steps", "libm_calls", "libm_calls_with_last_place_error", "allocations", "failed_allocations", "failed_system_calls", "lock_operations",
   "shared_memory_accesses", "environment_changes", "calls_flush_to_zero", "calls_with_traps_enabled", "calls_with_pending_flags", "calls_directed_rounding",
   "calls_ambient_randomised", "simulated_ns", "reference_evaluations", "skipped"};

uintptr_t args_lo, args_hi, img_lo, img_hi, rw_lo, rw_hi;
bool profiling; std::vector<u64>* prof_hot;
Shm* shm;

// ---- scenario text ----------------------------------------------------------
std::string Scenario::ser() const {
   std::string s; char b[256];
   snprintf(b, sizeof b, "prop %s\nseed %llu\nchecks %u\nthreads %d\nalloc %d %llu\nseccomp %d\nstacklim %llu\ncap %llu\nreps %llu\n", prop.c_str(),
            (unsigned long long)seed, checks, nthreads, allocmode, (unsigned long long)allocarg, seccomp,
            (unsigned long long)stacklim, (unsigned long long)cap, (unsigned long long)reps);
   s += b;
   for (auto& c : calls) s += "call " + call_ser(c) + "   # " + call_str(c) + "\n";
   for (auto& o : ops) { snprintf(b, sizeof b, "op %d %llu\n", o.call, (unsigned long long)o.amb); s += b; }
   for (auto& k : conts) { s += "cont"; for (int o : k) s += " " + std::to_string(o); s += "\n"; }
   for (auto& e : evs) {
      snprintf(b, sizeof b, "ev %d %s %llu %s %d %d\n", e.op, e.byhot ? "shared" : "step", (unsigned long long)e.at, ev_names[e.kind], e.arg, e.cont); s += b;
   }
   return s;
}

bool Scenario::parse(const std::string& text) {
   size_t p = 0;
   while (p < text.size()) {
      size_t q = text.find('\n', p); if (q == std::string::npos) q = text.size();
      std::string l = text.substr(p, q - p); p = q + 1;
      char w[64]; unsigned long long a, b;
      if (sscanf(l.c_str(), "%63s", w) != 1) continue;
      std::string k = w; const char* r = l.c_str() + k.size();
      if (k == "prop") { char v[64]; if (sscanf(r, "%63s", v) == 1) prop = v; }
      else if (k == "seed") seed = strtoull(r, nullptr, 10);
      else if (k == "checks") checks = strtoul(r, nullptr, 10);
      else if (k == "threads") nthreads = atoi(r);
      else if (k == "alloc") { int m; if (sscanf(r, "%d %llu", &m, &a) == 2) { allocmode = m; allocarg = a; } }
      else if (k == "seccomp") seccomp = atoi(r);
      else if (k == "stacklim") stacklim = strtoull(r, nullptr, 10);
      else if (k == "cap") cap = strtoull(r, nullptr, 10);
      else if (k == "reps") reps = strtoull(r, nullptr, 10);
      else if (k == "call") { Call c; if (!call_parse(r + 1, c)) return false; calls.push_back(c); }
      else if (k == "op") { int c; if (sscanf(r, "%d %llu", &c, &b) != 2) return false; Op o; o.call = c; o.amb = b; ops.push_back(o); }
      else if (k == "cont") {
         std::vector<int> v; char* e; const char* s = r;
         for (;;) { long x = strtol(s, &e, 10); if (e == s) break; v.push_back((int)x); s = e; }
         conts.push_back(v);
      } else if (k == "ev") {
         Ev e; char by[16], kd[16];
         if (sscanf(r, "%d %15s %llu %15s %d %d", &e.op, by, &a, kd, &e.arg, &e.cont) != 6) return false;
         e.byhot = !strcmp(by, "shared"); e.at = a; e.kind = -1;
         for (int i = 0; i < EV_NKINDS; i++) if (!strcmp(kd, ev_names[i])) e.kind = i;
         if (e.kind < 0) return false;
         evs.push_back(e);
      }
   }
   for (auto& o : ops) if (o.call < 0 || o.call >= (int)calls.size()) return false;
   for (auto& c : conts) for (int o : c) if (o < 0 || o >= (int)ops.size()) return false;
   if ((int)conts.size() < nthreads) return false;
   return true;
}

// ---- floating-point environment ------------------------------------------------
static inline unsigned rd_mxcsr() { unsigned m; asm volatile("stmxcsr %0" : "=m"(m)); return m; }
static inline void wr_mxcsr(unsigned m) { asm volatile("ldmxcsr %0" : : "m"(m)); }
static inline unsigned short rd_cw() { unsigned short c; asm volatile("fnstcw %0" : "=m"(c)); return c; }
static inline unsigned short rd_sw() { unsigned short c; asm volatile("fnstsw %0" : "=m"(c)); return c; }
struct X87 { uint32_t w[7]; };
static inline X87 rd_x87() { X87 x; asm volatile("fnstenv %0" : "=m"(x)); return x; }   // masks everything
static inline void wr_x87(const X87& x) { asm volatile("fldenv %0" : : "m"(x)); }

static unsigned want_mxcsr(const Env& e) {
   return (0x1f80u & ~((unsigned)e.traps << 7)) | ((unsigned)e.rm << 13) | (e.ftz & 1 ? 0x8000u : 0) | (e.ftz & 2 ? 0x40u : 0);
}
static unsigned short want_cw(const Env& e) {
   unsigned pc = e.pc == 0 ? 3 : e.pc == 1 ? 2 : 0;
   return (unsigned short)((0x7fu & ~(unsigned)e.traps) | 0x40u | (pc << 8) | ((unsigned)e.rm << 10));
}
static inline __attribute__((always_inline)) void set_env(const Env& e) {
   unsigned pend = e.pend & ~e.traps & 0x3f;
   X87 x = rd_x87();
   x.w[0] = (x.w[0] & 0xffff0000u) | want_cw(e);
   x.w[1] = (x.w[1] & 0xffff0000u) | pend;
   x.w[2] |= 0xffff;
   wr_x87(x);
   wr_mxcsr(want_mxcsr(e) | pend);
}
static inline __attribute__((always_inline)) void default_env() { asm volatile("fninit"); wr_mxcsr(0x1f80); }

// ---- child state -----------------------------------------------------------------
struct SimThread {
   int id = 0; int state = 0;            // 0 runnable, 1 done, 2 stalled
   int fut = 0; bool blocked = false; u64 blockprog = 0;
   char* stk = nullptr; size_t stklen = 0; pthread_t pt;
   Frame* top = nullptr;
};
static const Scenario* SC;
static const std::vector<Slot>* EXPECT;
static std::vector<SimThread*> T;
static int curthr; static int mainfut; static u64 progress; static bool infork;
static std::vector<std::vector<int>> evs_of_op; static std::vector<char> fired;
static char* args_mem; static size_t args_len;
static __thread const Ev* pend_ev; static __thread Frame* pend_frame; static __thread SimThread* me;
static __thread int curop = -1;
static __thread u64 curindex;
static sigset_t base_mask;
static u64 opcount;
static bool instrumented;
bool is_inst() { return instrumented; }

static void fwait(int* w) { while (__atomic_load_n(w, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_SEQ_CST); }
static void fwake(int* w) { __atomic_store_n(w, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static inline void log_event(u64 a, u64 b) { shm->hash = mix(shm->hash ^ a, b); }

void child_violation(int kind, int op, const std::string& msg) {
   tf = nullptr;
   if (!shm->vkind) {
      shm->vkind = kind; shm->vop = op; shm->opindex = curindex;
      snprintf(shm->vmsg, sizeof shm->vmsg, "%s", msg.c_str());
      log_event(kind, op);
   }
   shm->done = 1;
   _exit(0);
}

std::string op_label(const Scenario& sc, int op) {
   for (size_t k = 0; k < sc.conts.size(); k++)
      for (size_t i = 0; i < sc.conts[k].size(); i++)
         if (sc.conts[k][i] == op) return ((int)k < sc.nthreads ? "thread " : "handler ") + std::to_string(k) + " operation " + std::to_string(i);
   return "operation " + std::to_string(op);
}

void rt_badwrite(Frame* f, const void* p, size_t n) {
   if (!(SC->checks & CK_ARGS)) return;
   int op = f->op; tf = nullptr;
   char b[160]; uintptr_t a = (uintptr_t)p;
   const char* what = a - args_lo < args_hi - args_lo ? "the storage of an argument" : "the caller's memory next to the result or stack frame";
   snprintf(b, sizeof b, "store of %zu bytes into %s at step %llu", n, what, (unsigned long long)f->steps);
   child_violation(V_ARGS, op, b);
}

// ---- scheduler -------------------------------------------------------------------
static int pick(int self, bool retry_blocked) {
   int n = (int)T.size();
   for (int k = 1; k <= n; k++) {
      int i = (self + k) % n;
      if (i != self && T[i]->state == 0 && !T[i]->blocked) return i;
   }
   if (retry_blocked) for (int k = 1; k <= n; k++) {
      int i = (self + k) % n;
      if (i != self && T[i]->state == 0 && T[i]->blocked && T[i]->blockprog < progress) return i;
   }
   return -1;
}
static void give(SimThread* self, int to, bool wait) {
   curthr = to;
   log_event(0x511, to);
   fwake(&T[to]->fut);
   if (wait) fwait(&self->fut);
}

void rt_block(const char* what, const std::function<bool()>& pred) {
   Frame* f = tf; tf = nullptr;
   SimThread* self = f->thr;
   bool yieldlike = !strcmp(what, "yield");
   bool ok = pred();
   if (!ok) {
      shm->st[ST_BLOCKWAIT]++;
      self->blocked = true; progress++;
      while (!ok) {
         self->blockprog = progress;
         int nx = infork ? -1 : pick(self->id, true);
         if (nx < 0) {
            if (yieldlike) break;
            child_violation(V_BLOCKED, f->op, std::string("the call waits for a ") + what + " that nobody can release any more");
         }
         give(self, nx, true);
         ok = pred();
      }
      self->blocked = false; progress++;
   }
   tf = f;
}

static void run_cont(SimThread* t, int cont);

static void watchdog();
static void on_usr1(int) {
   const Ev* e = pend_ev; Frame* f = pend_frame; SimThread* t = f->thr;
   pend_ev = nullptr; pend_frame = nullptr;
   switch (e->kind) {
   case EV_SIGNAL:
      shm->st[ST_SIGNAL]++;
      if (e->cont >= 0) run_cont(t, e->cont);
      break;
   case EV_ABANDON:
      shm->st[ST_ABANDON]++;
      if (e->cont >= 0) run_cont(t, e->cont);
      siglongjmp(f->jb, 1);
   case EV_FORK: {
      shm->st[ST_FORK]++;
      pid_t p = fork();
      if (p == 0) {
         infork = true;
         prctl(PR_SET_PDEATHSIG, SIGKILL);
         watchdog();
         for (auto x : T) if (x != t) x->state = 1;
         if (e->cont >= 0) run_cont(t, e->cont);
         if (e->arg == 1) return;        // resume the interrupted call in the child
         siglongjmp(f->jb, 1);
      }
      int st = 0; while (p > 0 && waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (shm->vkind) _exit(0);
      if (p > 0 && (!WIFEXITED(st) || WEXITSTATUS(st) != 77)) child_violation(V_CRASH, f->op, "the forked child did not complete (status " + std::to_string(st) + ")");
      if (p > 0) shm->st[ST_FORKED_DONE]++;
      break;
   }
   }
}

enum { DEFCAP = 6000000, SLICE = 150000 };

static void recompute(Frame* f) {
   u64 nx = f->cap, nh = ~0ull;
   if (SC && f->op >= 0) for (int i : evs_of_op[f->op]) if (!fired[i]) {
      const Ev& e = SC->evs[i];
      if (e.byhot) nh = std::min(nh, e.at); else nx = std::min(nx, std::max(e.at, (u64)1));
   }
   if (T.size() > 1) nx = std::min(nx, f->slice);
   if (profiling) nh = 0;
   f->next = nx; f->nexthot = nh;
}

static bool env_same(Frame* f, std::string& msg);

void rt_slow(Frame* f, int byhot) {
   tf = nullptr;
   if (profiling && byhot) { if (prof_hot && prof_hot->size() < 100000) prof_hot->push_back(f->steps); tf = f; return; }
   if (f->op < 0) {
      if (f->steps >= f->cap) siglongjmp(f->jb, 1);
      tf = f; return;
   }
   if (f->steps >= f->cap) {
      child_violation(V_STEPS, f->op, "still running after " + std::to_string(f->steps) + " steps");
   }
   SimThread* t = f->thr;
   for (bool again = true; again;) {
      again = false;
      for (int i : evs_of_op[f->op]) {
         const Ev& e = SC->evs[i];
         if (fired[i] || (e.byhot ? f->hot < e.at : f->steps < e.at)) continue;
         fired[i] = 1; again = true;
         log_event(0xe7 + e.kind, f->steps);
         if (e.kind == EV_SWITCH) {
            if (infork || T.size() < 2) break;
            int to = e.arg % (int)T.size();
            if (to == t->id || T[to]->state != 0) to = pick(t->id, false);
            if (to >= 0) { shm->st[ST_SWITCH]++; give(t, to, true); f->slice = f->steps + SLICE; }
         } else if (e.kind == EV_STALL) {
            if (infork || T.size() < 2) break;
            shm->st[ST_STALL]++;
            if (f->op < MAXSLOTS) shm->slot[f->op].state = 4;
            t->state = 2;
            int to = pick(t->id, true);
            if (to >= 0) give(t, to, false);
            else {
               for (auto x : T) if (x->state == 0 && x->blocked) child_violation(V_BLOCKED, f->op, "another call waits forever for this stalled call");
               fwake(&mainfut);
            }
            int never = 0; for (;;) fwait(&never);
         } else {
            if (e.kind == EV_ABANDON && (SC->checks & CK_ENV)) {
               std::string m;
               if (!env_same(f, m)) child_violation(V_ENV, f->op, m + " at the point of abandonment (step " + std::to_string(f->steps) + ")");
            }
            pend_ev = &e; pend_frame = f;
            int so = curop; u64 si = curindex;
            raise(SIGUSR1);
            curop = so; curindex = si;
         }
         break;
      }
   }
   if (T.size() > 1 && f->steps >= f->slice) {
      f->slice = f->steps + SLICE;
      int to = infork ? -1 : pick(t->id, false);
      if (to >= 0) give(t, to, true);
   }
   recompute(f);
   tf = f;
}

// ---- one operation ------------------------------------------------------------------
static __attribute__((noinline)) void paint_stack(u64 seed, size_t bytes) {
   volatile u64* p = (volatile u64*)__builtin_alloca(bytes);
   for (size_t i = 0; i < bytes / 8; i++) p[i] = mix64(seed + i);
   asm volatile("" ::: "memory");
}
static __attribute__((noinline)) void mark_stack(size_t bytes) {
   volatile u64* p = (volatile u64*)__builtin_alloca(bytes);
   for (size_t i = 0; i < bytes / 8; i++) p[i] = 0xd5d5d5d5d5d5d5d5ull;
   asm volatile("" ::: "memory");
}

struct After { unsigned mxcsr; X87 x; unsigned long flags; };

static char* stack_guard_lo; static char* stack_guard_hi;

static __attribute__((noinline)) void do_call(Frame* f, const Call& c, const void* arg, void* res, After* af, u64 amb) {
   const api_fn& a = fn(c.fn);
   api_call call = a.call; int64_t n = c.n;
   f->hi = (uintptr_t)__builtin_frame_address(0);
   u64 r0 = mix(amb, 1), r1 = mix(amb, 2);
   errno = amb ? (int)(r0 % 134) : 0;
   set_env(c.env);
   tf = f;
   if (amb) {
      double d0, d1; memcpy(&d0, &r0, 8); memcpy(&d1, &r1, 8);
      asm volatile(
         "movq %0, %%xmm0\n movq %1, %%xmm1\n movq %1, %%xmm2\n movq %0, %%xmm3\n movq %0, %%xmm4\n movq %1, %%xmm5\n"
         "movq %1, %%xmm6\n movq %0, %%xmm7\n movq %0, %%xmm8\n movq %1, %%xmm9\n movq %1, %%xmm10\n movq %0, %%xmm11\n"
         "movq %0, %%xmm12\n movq %1, %%xmm13\n movq %1, %%xmm14\n movq %0, %%xmm15\n"
         "mov %0, %%rax\n mov %1, %%rcx\n mov %0, %%r10\n mov %1, %%r11\n mov %0, %%r8\n mov %1, %%r9\n"
         : : "r"(r0), "r"(r1) : "rax", "rcx", "r8", "r9", "r10", "r11",
         "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
   }
   call(n, arg, res);
   tf = nullptr;
   af->mxcsr = rd_mxcsr();
   af->x = rd_x87();
   unsigned long fl; asm volatile("pushfq\n pop %0" : "=r"(fl)); af->flags = fl;
   asm volatile("cld");
   default_env();
}

// a call made by an oracle: same environment, no events
Res call_plain(const Call& c, unsigned* raised) {
   alignas(16) char arg[64], res[64];
   Frame f; After af;
   f.libm = c.env.libm; f.thr = me; f.lo = (uintptr_t)__builtin_frame_address(0) - (6 << 20);
   f.res = (uintptr_t)res; f.cap = f.next = DEFCAP;
   store_arg(c, arg); memset(res, 0, sizeof res);
   do_call(&f, c, arg, res, &af, 0);
   if (raised) *raised = (af.mxcsr | af.x.w[1]) & 0x3f;
   return canon(fn(c.fn), res);
}

// a call made by the discovery phase; false if it crashed or exceeded the cap
static Frame* probe_frame;
bool probe_call(const Call& c, u64 cap, u64& steps, u64& hot, int& why) {
   alignas(64) static char arg[64];
   alignas(16) char res[64];
   args_lo = (uintptr_t)arg; args_hi = args_lo + 64;
   Frame f; After af;
   f.libm = c.env.libm; f.lo = (uintptr_t)__builtin_frame_address(0) - (6 << 20);
   f.res = (uintptr_t)res; f.cap = f.next = cap;
   store_arg(c, arg); memset(res, 0, sizeof res);
   probe_frame = &f;
   int j = sigsetjmp(f.jb, 1);
   if (j == 0) { try { do_call(&f, c, arg, res, &af, 0); } catch (...) { tf = nullptr; j = 3; } }
   default_env();
   probe_frame = nullptr;
   steps = f.steps; hot = f.hot; why = j;
   return j == 0;
}
static void on_probe_fatal(int) { Frame* f = probe_frame; tf = nullptr; if (!f) _exit(4); siglongjmp(f->jb, 2); }
void probe_init() {
   struct sigaction sa; memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_probe_fatal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
   stack_t ss; memset(&ss, 0, sizeof ss);
   ss.ss_size = 65536; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
   for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

static std::string hex(unsigned v) { char b[32]; snprintf(b, sizeof b, "0x%x", v); return b; }

// control settings at a point within the call
static bool env_same(Frame* f, std::string& msg) {
   unsigned m = rd_mxcsr(); unsigned short cw = rd_cw(); unsigned short sw = rd_sw();
   if ((m & ~0x3fu) != (f->mxcsr0 & ~0x3fu)) { msg = "MXCSR control bits changed from " + hex(f->mxcsr0 & ~0x3fu) + " to " + hex(m & ~0x3fu); return false; }
   if (cw != (unsigned short)f->cw0) { msg = "x87 control word changed from " + hex(f->cw0) + " to " + hex(cw); return false; }
   unsigned pend = f->mxcsr0 & 0x3f;
   if (pend & ~(m | sw)) { msg = "pending exception flags were cleared"; return false; }
   return true;
}

struct ProcState { sigset_t mask; struct sigaction sa[8]; char loc[256]; locale_t ul; int r1, r2; long r3; };
static const int watched[] = {SIGFPE, SIGINT, SIGALRM, SIGUSR2, SIGILL, SIGTERM, SIGABRT, SIGPIPE};
static void state_before(ProcState& p, unsigned seed) {
   pthread_sigmask(SIG_SETMASK, nullptr, &p.mask);
   for (int i = 0; i < 8; i++) sigaction(watched[i], nullptr, &p.sa[i]);
   snprintf(p.loc, sizeof p.loc, "%s", setlocale(LC_ALL, nullptr)); p.ul = uselocale((locale_t)0);
   srand(seed); p.r1 = rand(); p.r2 = rand(); srand(seed);
   srand48(seed); p.r3 = lrand48(); srand48(seed);
}
static bool state_after(const ProcState& p, std::string& msg) {
   ProcState q;
   pthread_sigmask(SIG_SETMASK, nullptr, &q.mask);
   for (int i = 1; i < 65; i++) if (sigismember(&q.mask, i) != sigismember(&p.mask, i)) { msg = "the signal mask changed"; return false; }
   for (int i = 0; i < 8; i++) {
      sigaction(watched[i], nullptr, &q.sa[i]);
      if (q.sa[i].sa_handler != p.sa[i].sa_handler || q.sa[i].sa_flags != p.sa[i].sa_flags) { msg = "the disposition of signal " + std::to_string(watched[i]) + " changed"; return false; }
   }
   if (strcmp(p.loc, setlocale(LC_ALL, nullptr)) || p.ul != uselocale((locale_t)0)) { msg = "the locale changed"; return false; }
   if (rand() != p.r1 || rand() != p.r2 || lrand48() != p.r3) { msg = "the random-number state of the C library changed"; return false; }
   return true;
}

// bounded work (C06): 15 to 500 times the largest number of steps seen in the repaired library
static u64 work_cap(const Call& c) {
   const api_fn& f = fn(c.fn);
   return !general(f) ? 50000 : c.n >= 0 || f.fam != F_LI ? 200000 : 1000000;
}

static void run_op(SimThread* t, int op, u64 rep) {
   const Op& o = SC->ops[op]; const Call& c = SC->calls[o.call]; const api_fn& af = fn(c.fn);
   Frame f; After after;
   u64 amb = o.amb ? mix(o.amb, rep) | 1 : 0;
   f.op = op; f.thr = t; f.parent = t->top; f.amb = amb; f.libm = c.env.libm;
   f.allocmode = SC->allocmode; f.allocarg = SC->allocarg;
   f.lo = (uintptr_t)t->stk;
   f.cap = SC->cap ? std::min(SC->cap, work_cap(c)) : DEFCAP; f.slice = SLICE;
   f.mxcsr0 = want_mxcsr(c.env) | (c.env.pend & ~c.env.traps & 0x3f); f.cw0 = want_cw(c.env);
   alignas(16) unsigned char buf[64 + 32 + 64];
   memset(buf, 0xa5, sizeof buf);
   f.res = (uintptr_t)(buf + 64);
   const void* arg = args_mem + (size_t)64 * o.call;
   curop = op; curindex = opcount++;
   t->top = &f;
   Slot* s = infork ? nullptr : op < MAXSLOTS ? &shm->slot[op] : nullptr;
   if (s) { s->state = 1; s->steps = 0; }
   ProcState ps;
   if (SC->checks & CK_STATE) state_before(ps, (unsigned)mix(o.amb, 9));
   if (SC->stacklim) mark_stack(SC->stacklim - 1024); else if (amb) paint_stack(amb, 6144);
   recompute(&f);
   bool done = false;
   if (sigsetjmp(f.jb, 1) == 0) {
      try { do_call(&f, c, arg, buf + 64, &after, amb); }
      catch (...) { tf = nullptr; default_env(); child_violation(V_EXCEPTION, op, "a C++ exception left the call"); }
      done = true;
   } else default_env();
   t->top = f.parent;
   if (SC->stacklim && done) {
      // high-water mark of the stack: the caller's frame down to the deepest changed word
      volatile u64* p = (volatile u64*)(f.hi - SC->stacklim + 2048);
      while ((uintptr_t)p < f.hi && *p == 0xd5d5d5d5d5d5d5d5ull) p++;
      u64 used = f.hi - (uintptr_t)p;
      if (used > shm->maxstack) shm->maxstack = used;
   }
   u64* st = shm->st;
   st[ST_OPS]++; st[ST_STEPS] += f.steps; st[ST_LIBM] += f.libm_calls; st[ST_ALLOCS] += f.allocs; st[ST_ALLOCFAIL] += f.alloc_failed;
   if (f.libm) st[ST_LIBMPERT] += f.libm_calls;
   st[ST_LOCKS] += f.locks; st[ST_HOT] += f.hot; st[ST_SIMNS] += f.steps;
   if (c.env.ftz) st[ST_FTZ]++;
   if (c.env.traps) st[ST_TRAPS]++;
   if (c.env.pend) st[ST_PEND]++;
   if (c.env.rm) st[ST_RM]++;
   if (amb) st[ST_AMB]++;
   if (f.steps > shm->maxsteps) { shm->maxsteps = f.steps; shm->maxsteps_op = op; }
   if (!done) {
      if (s) s->state = 3;
      log_event(0xab, (u64)op << 32 | f.steps);
      if (infork && !f.parent) { shm->done = 0; _exit(77); }
      return;
   }
   Slot tmp; Slot* r = s ? s : &tmp;
   r->state = 2; r->steps = f.steps; r->hot = f.hot; r->libm_calls = f.libm_calls;
   r->res = canon(af, buf + 64);
   r->raised = ((after.mxcsr | after.x.w[1]) & 0x3f) & ~(c.env.pend & ~c.env.traps);
   log_event(hash_bytes(&r->res, 32, op), mix(r->steps, r->raised));

   // invariants
   unsigned ck = SC->checks;
   if (ck & CK_RESULT && EXPECT) {
      const Slot& e = (*EXPECT)[o.call];
      if (e.res != r->res)
         child_violation(V_RESULT, op, call_str(c) + " returned " + res_str(af, r->res) + ", in isolation " + res_str(af, e.res));
      if ((ck & CK_WORK) && r->steps > 100 * e.steps + 100000)
         child_violation(V_STEPS, op, call_str(c) + " took " + std::to_string(r->steps) + " steps, in isolation " + std::to_string(e.steps));
   }
   if (ck & CK_ARGS) {
      for (int i = 0; i < 64; i++) if (buf[i] != 0xa5 || buf[96 + i] != 0xa5)
         child_violation(V_ARGS, op, call_str(c) + ": bytes next to the result were overwritten");
      size_t rs = arg_size(af);
      for (size_t i = rs; i < 32; i++) if (buf[64 + i] != 0xa5)
         child_violation(V_ARGS, op, call_str(c) + ": bytes next to the result were overwritten");
   }
   if (ck & CK_ENV) {
      unsigned m0 = f.mxcsr0, m1 = after.mxcsr; unsigned cw = after.x.w[0] & 0xffff, sw = after.x.w[1] & 0xffff, tag = after.x.w[2] & 0xffff;
      std::string m;
      if ((m0 & ~0x3fu) != (m1 & ~0x3fu)) m = "MXCSR control bits changed from " + hex(m0 & ~0x3fu) + " to " + hex(m1 & ~0x3fu);
      else if ((cw & 0x0f3f) != (f.cw0 & 0x0f3f)) m = "x87 control word changed from " + hex(f.cw0) + " to " + hex(cw);
      else if (tag != 0xffff || (sw & 0x3800)) m = "the x87 register stack is not empty (tag word " + hex(tag) + ", status " + hex(sw) + ")";
      else if ((m0 & 0x3f) & ~(m1 & 0x3f)) m = "SSE exception flags pending before the call were cleared: " + hex((m0 & 0x3f) & ~(m1 & 0x3f));
      else if ((m0 & 0x3f) & ~(sw & 0x3f)) m = "x87 exception flags pending before the call were cleared: " + hex((m0 & 0x3f) & ~(sw & 0x3f));
      else if (after.flags & 0x400) m = "the direction flag is set";
      if (!m.empty()) child_violation(V_ENV, op, call_str(c) + ": " + m);
   }
   if (ck & CK_STATE) {
      std::string m;
      if (!state_after(ps, m)) child_violation(V_STATE, op, call_str(c) + ": " + m);
   }
   if (ck & CK_IO) fflush(nullptr);
   if (ck & (CK_ACC | CK_SPECIAL | CK_AGREE | CK_FLAGS | CK_SYM | CK_REAL)) {
      OracleOut out;
      Slot copy = *r;
      if (!oracle_check(ck, c, copy, out)) child_violation(out.kind, op, out.msg);
   }
   if (infork && !f.parent) _exit(77);
}

static void run_cont(SimThread* t, int cont) {
   if (cont < 0 || cont >= (int)SC->conts.size()) return;
   for (int op : SC->conts[cont]) run_op(t, op, 0);
}

// ---- threads ---------------------------------------------------------------------------
static void setup_altstack() {
   stack_t ss; memset(&ss, 0, sizeof ss);
   ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   sigaltstack(&ss, nullptr);
}

static void install_seccomp();

static void* thread_main(void* p) {
   SimThread* t = (SimThread*)p; me = t;
   setup_altstack();
   fwait(&t->fut);
   if (SC->stacklim) {
      // everything below the allowed stack is inaccessible
      uintptr_t sp = (uintptr_t)__builtin_frame_address(0) - 1024;
      stack_guard_lo = t->stk; stack_guard_hi = (char*)((sp - SC->stacklim - 4096) & ~4095ul);
      mprotect(stack_guard_lo, stack_guard_hi - stack_guard_lo, PROT_NONE);
   }
   if (SC->seccomp) install_seccomp();
   u64 reps = t->id == 0 ? SC->reps : 1;
   for (u64 r = 0; r < reps; r++)
      for (int op : SC->conts[t->id]) run_op(t, op, r);
   if (SC->seccomp) { shm->done = 1; _exit(0); }
   t->state = 1; progress++;
   int nx = pick(t->id, true);
   if (nx >= 0) give(t, nx, false);
   else {
      for (auto x : T) if (x->state == 0) child_violation(V_BLOCKED, SC->conts[x->id].empty() ? -1 : SC->conts[x->id][0], "a call waits forever although all others have finished");
      fwake(&mainfut);
   }
   return nullptr;
}

static void on_fatal(int sig, siginfo_t* si, void* uc) {
   Frame* f = tf;
   bool incall = f != nullptr;
   int op = incall ? f->op : curop;
   tf = nullptr;
   char b[256]; uintptr_t a = (uintptr_t)si->si_addr;
   (void)uc;
   if (!incall && sig == SIGABRT) incall = true;    // std::terminate from within the library unwinds nothing
   if (sig == SIGSEGV && a - args_lo < args_hi - args_lo) {
      child_violation(SC->checks & CK_ARGS ? V_ARGS : V_CRASH, op, "store into the storage of an argument");
   }
   if (sig == SIGSEGV && a >= (uintptr_t)stack_guard_lo && a < (uintptr_t)stack_guard_hi && stack_guard_hi)
      child_violation(V_STACK, op, "the call needs more than " + std::to_string(SC->stacklim) + " bytes of stack");
   if (sig == SIGFPE) { snprintf(b, sizeof b, "floating-point trap (code %d)", si->si_code); child_violation(V_TRAP, op, b); }
   snprintf(b, sizeof b, "signal %d (%s)", sig, strsignal(sig));
   child_violation(incall ? V_CRASH : -1, op, b);
}

// progress watchdog: a call that uses 3 s of processor time or blocks for 20 s does not finish
static u64 tick_cpu_op = ~0ull, tick_wall_op = ~0ull; static int tick_cpu, tick_wall;
static void on_tick(int sig) {
   u64& last = sig == SIGVTALRM ? tick_cpu_op : tick_wall_op; int& n = sig == SIGVTALRM ? tick_cpu : tick_wall;
   if (last != opcount) { last = opcount; n = 0; return; }
   bool incall = tf != nullptr; int op = incall ? tf->op : curop;
   n++;
   if (sig == SIGVTALRM) {
      if (n < (incall ? 3 : 60)) return;
      child_violation(incall ? V_BLOCKED : -1, op, "the call does not finish");
   }
   if (n < 4) return;
   child_violation(V_BLOCKED, op, "the call waits for ever");
}
static void watchdog() {
   tick_cpu_op = tick_wall_op = ~0ull;
   struct sigaction sa; memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr); sigaction(SIGALRM, &sa, nullptr);
   struct itimerval it; memset(&it, 0, sizeof it);
   it.it_value.tv_sec = it.it_interval.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &it, nullptr);
   it.it_value.tv_sec = it.it_interval.tv_sec = 5; setitimer(ITIMER_REAL, &it, nullptr);
}

static void on_sys(int, siginfo_t* si, void* ucv) {
   ucontext_t* uc = (ucontext_t*)ucv;
   int nr = si->si_syscall;
   shm->st[ST_SYSCALLS]++;
   switch (nr) {
   case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_open: case SYS_openat: case SYS_creat: case SYS_read: case SYS_readv:
   case SYS_pread64: case SYS_sendto: case SYS_socket: case SYS_unlink: case SYS_rename:
      child_violation(V_IO, tf ? tf->op : curop, "the call accesses files or streams (system call " + std::to_string(nr) + ")");
   }
   static const int errs[] = {EPERM, ENOMEM, EINTR, EAGAIN, ENOSYS, EIO};
   uc->uc_mcontext.gregs[REG_RAX] = -errs[mix(SC->allocarg, shm->st[ST_SYSCALLS]) % 6];
}

static void install_seccomp() {
#define ALLOW(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, n, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
   struct sock_filter flt[] = {
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
      ALLOW(SYS_exit_group), ALLOW(SYS_rt_sigreturn), ALLOW(SYS_rt_sigprocmask),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
   };
   struct sock_fprog prog; prog.len = sizeof flt / sizeof *flt; prog.filter = flt;
   if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) shm->extra = 1;
}

static void child_run() {
   // arguments: read-only memory owned by the caller, shared by all calls
   size_t n = SC->calls.size();
   args_len = (n * 64 + 4095 + 4096) & ~4095ul;
   args_mem = (char*)mmap(nullptr, args_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   memset(args_mem, 0x5a, args_len);
   for (size_t i = 0; i < n; i++) store_arg(SC->calls[i], args_mem + 64 * i);
   mprotect(args_mem, args_len, PROT_READ);
   args_lo = (uintptr_t)args_mem; args_hi = args_lo + args_len;
   evs_of_op.assign(SC->ops.size(), {}); fired.assign(SC->evs.size(), 0);
   for (size_t i = 0; i < SC->evs.size(); i++) if (SC->evs[i].op >= 0 && SC->evs[i].op < (int)SC->ops.size()) evs_of_op[SC->evs[i].op].push_back((int)i);

   struct sigaction sa; memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_usr1; sa.sa_flags = SA_NODEFER; sigaction(SIGUSR1, &sa, nullptr);
   memset(&sa, 0, sizeof sa);
   sa.sa_sigaction = on_fatal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
   for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
   sa.sa_sigaction = on_sys; sigaction(SIGSYS, &sa, nullptr);
   watchdog();
   int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); dup2(dn, 2); close(dn); }

   if (SC->nthreads == 1 && !SC->stacklim && !SC->seccomp) {
      setup_altstack();
      SimThread* t = new SimThread; T.push_back(t); me = t;
      t->stk = (char*)__builtin_frame_address(0) - (7 << 20);
      for (u64 r = 0; r < SC->reps; r++)
         for (int op : SC->conts[0]) run_op(t, op, r);
   } else {
      for (int i = 0; i < SC->nthreads; i++) {
         SimThread* t = new SimThread; t->id = i; T.push_back(t);
         t->stklen = SC->stacklim ? 64u << 20 : 512u << 10;
         t->stk = (char*)mmap(nullptr, t->stklen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      }
      for (auto t : T) {
         pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t->stk, t->stklen);
         if (pthread_create(&t->pt, &at, thread_main, t)) child_violation(-1, -1, "pthread_create failed");
      }
      fwake(&T[0]->fut);
      fwait(&mainfut);
   }
   shm->done = 1;
   _exit(0);
}

static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
   if (img_hi) return 0;                      // first entry: the executable
   uintptr_t lo = ~0ul, hi = 0, wlo = ~0ul, whi = 0, rlo = 0, rhi = 0;
   for (int k = 0; k < i->dlpi_phnum; k++) {
      const ElfW(Phdr)& p = i->dlpi_phdr[k];
      uintptr_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
      if (p.p_type == PT_LOAD) {
         lo = std::min(lo, a); hi = std::max(hi, b);
         if (p.p_flags & PF_W) { wlo = std::min(wlo, a); whi = std::max(whi, b); }
      } else if (p.p_type == PT_GNU_RELRO) { rlo = a; rhi = b; }
   }
   if (rhi > rlo && rlo <= wlo) wlo = std::max(wlo, rhi);
   img_lo = lo; img_hi = hi; rw_lo = wlo; rw_hi = whi;
   return 0;
}

extern "C" void __tsan_init() __attribute__((weak));

void exec_init() {
   shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   dl_iterate_phdr(phdr_cb, nullptr);
   instrumented = __tsan_init != nullptr;
   sigemptyset(&base_mask);
}

Violation run_scenario(const Scenario& sc, const std::vector<Slot>* expect) {
   size_t ns = std::min<size_t>(sc.ops.size(), MAXSLOTS);
   memset((void*)shm, 0, offsetof(Shm, slot) + ns * sizeof(Slot));
   memset(shm->err_fn, 0, sizeof shm->err_fn);
   shm->hash = mix(sc.seed, sc.ops.size());
   fflush(nullptr);
   pid_t p = fork();
   if (p == 0) { SC = &sc; EXPECT = expect; child_run(); _exit(0); }
   int st = 0;
   while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
   Violation v;
   if (p < 0) { v.kind = -1; v.msg = "fork failed"; return v; }
   v.hash = shm->hash;
   if (shm->vkind) { v.kind = shm->vkind; v.op = shm->vop; v.msg = shm->vmsg; v.opindex = shm->opindex; return v; }
   if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      v.kind = s == SIGKILL ? -1 : s == SIGALRM ? V_BLOCKED : V_CRASH; v.msg = std::string("the process died of signal ") + strsignal(s);
   } else if (WEXITSTATUS(st) != 0 || !shm->done) {
      v.kind = V_EXIT; v.msg = "the process was terminated by a call (exit status " + std::to_string(WEXITSTATUS(st)) + ")";
   }
   return v;
}

static std::vector<u64>* shared_hot() {
   static std::vector<u64> v; return &v;
}

bool pristine(const Call& c, Slot& cold, Slot* warm, std::string& err, u64 cap, std::vector<u64>*) {
   Scenario s; s.prop = "pristine"; s.calls.push_back(c); s.ops.resize(warm ? 2 : 1); s.conts = {{0}};
   if (warm) s.conts[0].push_back(1);
   s.cap = cap;
   (void)shared_hot;
   Violation v = run_scenario(s, nullptr);
   if (v.kind) { err = std::string(v_names[std::max(v.kind, 0)]) + ": " + v.msg; return false; }
   cold = shm->slot[0]; if (warm) *warm = shm->slot[1];
   return true;
}
