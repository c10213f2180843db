// The process under simulation: runs the blocks of actions of the scenario in
// all phases of a process life.  Everything is sequential: a thread that was
// created or resumed runs while its creator waits.
#include "life.h"
#include "common.inc"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/wait.h>

#ifdef LIFE_NOLIB
extern "C" { __attribute__((weak)) extern const struct api_fn api_c[]; __attribute__((weak)) extern const int api_c_len; __attribute__((weak)) extern const struct api_fn api_cpp[]; }
#endif
extern "C" int __cxa_atexit(void (*)(void*), void*, void*);
extern "C" int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept;

extern "C" void* __dso_handle __attribute__((visibility("hidden")));

static void run(int b, int where);

static int leaving, exiting, depth, nodl;     // nodl: in a phase in which the C library cannot load shared libraries
static struct { void* h; void (*call)(int, int, int); } slot[LMAXSLOT];
static struct Thr { pthread_t t; volatile int cmd, idle, alive; int block; int pid; int stay; } thr[LMAXTHREAD];

static void fwait(volatile int* p, int v) { while (*p == v) syscall(SYS_futex, p, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void fset(volatile int* p, int v) { __atomic_store_n(const_cast<int*>(p), v, __ATOMIC_SEQ_CST); syscall(SYS_futex, p, FUTEX_WAKE, 1 << 30, nullptr, nullptr, 0); }

static void* thread_main(void* q) {
   Thr* t = static_cast<Thr*>(q);
   run(t->block, PH_THREAD);
   while (t->stay) {
      t->cmd = 0; fset(&t->idle, 1);
      fwait(&t->cmd, 0);
      if (t->cmd < 0) break;
      run(t->cmd, PH_THREAD);
   }
   return nullptr;
}

static void on_atexit(void* b) { exiting = 1; run((int)(intptr_t)b, PH_ATEXIT); }
static void on_tls(void* b) { run((int)(intptr_t)b, PH_TLS); }
static void on_key(void* v) { run((int)(intptr_t)v, PH_KEY); }
static int quick_blocks[8], nquick;
template <int K> static void on_quick() { exiting = 1; run(quick_blocks[K], PH_QUICK); }
static void (*const quick_fns[8])() = {on_quick<0>, on_quick<1>, on_quick<2>, on_quick<3>, on_quick<4>, on_quick<5>, on_quick<6>, on_quick<7>};
static int sig_block, sig_exit;
static void on_signal(int) {
   if (sig_exit) { sig_exit = 0; exit(0); }
   run(sig_block, PH_SIGNAL);
}
static char altstack[1 << 18];

static void act(int a, int where) {
   LFile* l = life();
   const LAct& x = l->acts[a];
   switch (x.kind) {
   case A_CALL:
#ifdef LIFE_NOLIB
      if (!&api_c_len) return;
#endif
      life_call(api_c, api_c_len, api_cpp, x.a, where, a); break;
   case A_CALLSO:
      if (!slot[x.b].h) return;
      slot[x.b].call(x.a, where, a); break;
   case A_ATEXIT: __cxa_atexit(on_atexit, (void*)(intptr_t)x.a, nullptr); break;
   case A_QUICK: if (nquick < 8) { quick_blocks[nquick] = x.a; at_quick_exit(quick_fns[nquick++]); } break;
   case A_THREAD: {
      Thr& t = thr[x.b];
      if (t.alive && t.pid == getpid()) return;
      // (the C library would count this thread as the last one and exit with it)
      if (exiting && l->end == END_PTHREAD_EXIT) return;
      t.cmd = 0; t.idle = 0; t.block = x.a; t.stay = x.c && !leaving; t.pid = getpid(); t.alive = 1;
      if (pthread_create(&t.t, nullptr, thread_main, &t)) { t.alive = 0; return; }
      if (t.stay) fwait(&t.idle, 0); else { pthread_join(t.t, nullptr); t.alive = 0; }
      break;
   }
   case A_RESUME: case A_FINISH: {
      Thr& t = thr[x.b];
      if (!t.alive || t.pid != getpid() || pthread_equal(t.t, pthread_self()) || !t.idle) return;
      t.idle = 0;
      if (x.kind == A_FINISH) { fset(&t.cmd, -1); pthread_join(t.t, nullptr); t.alive = 0; }
      else { fset(&t.cmd, x.a); fwait(&t.idle, 0); }
      break;
   }
   case A_TLS: __cxa_thread_atexit(on_tls, (void*)(intptr_t)x.a, &__dso_handle); break;
   case A_KEY: { pthread_key_t k; if (pthread_key_create(&k, on_key)) return; pthread_setspecific(k, (void*)(intptr_t)x.a); break; }
   case A_SIGNAL: {
      struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = on_signal; bool alt = x.b && syscall(SYS_gettid) == getpid();
      s.sa_flags = SA_NODEFER | (alt ? SA_ONSTACK : 0);
      if (alt) { stack_t st; memset(&st, 0, sizeof st); st.ss_sp = altstack; st.ss_size = sizeof altstack; sigaltstack(&st, nullptr); }
      sigaction(SIGUSR1, &s, nullptr);
      int old = sig_block; sig_block = x.a;
      raise(SIGUSR1);
      sig_block = old;
      break;
   }
   case A_FORK: {
      int pid = fork();
      if (pid == 0) {
         run(x.a, PH_FORK);
         if (x.b && !exiting) exit(0);
         _exit(0);
      }
      if (pid < 0) return;
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (st) {
         int r = __atomic_fetch_add(const_cast<int*>(&l->nrec), 1, __ATOMIC_SEQ_CST);
         if (r >= LMAXREC) _exit(96);
         l->rec[r].where = PH_FORK; l->rec[r].act = a; l->rec[r].status = st; l->rec[r].call = -1; l->rec[r].state = 3;
      }
      break;
   }
   case A_DLOPEN: {
      auto& s = slot[x.b];
      if (s.h || nodl) return;
      int fl = (x.c & 1 ? RTLD_LAZY : RTLD_NOW) | (x.c & 2 ? RTLD_GLOBAL : RTLD_LOCAL);
      s.h = x.c & 4 ? dlmopen(LM_ID_NEWLM, l->so[x.a], RTLD_NOW) : dlopen(l->so[x.a], fl);
      if (!s.h) { const char* e = dlerror(); if (getenv("LIFE_DEBUG")) { write(2, e, strlen(e)); write(2, "\n", 1); } return; }
      s.call = reinterpret_cast<void (*)(int, int, int)>(dlsym(s.h, "life_so_call"));
      if (!s.call) _exit(95);
      break;
   }
   case A_DLCLOSE: if (!slot[x.b].h || nodl) return; { void* h = slot[x.b].h; slot[x.b].h = nullptr; dlclose(h); } break;
   case A_CLOSEFD: close(0); close(1); close(2); break;
   case A_SETSID: setsid(); break;
   }
   __atomic_fetch_add(const_cast<int*>(&l->count[x.kind]), 1, __ATOMIC_SEQ_CST);
}

static void run(int b, int where) {
   if (b <= 0 || depth > 7) return;
   LFile* l = life();
   depth++;
   for (int i = 0; i < l->blocks[b].count; i++) act(l->blocks[b].first + i, where);
   depth--;
}

static void fixed(int ph) {
   LFile* l = life();
   if (!l->mainpid) l->mainpid = getpid();
   if (ph >= PH_STATIC_DTOR) exiting = 1;
   nodl = ph == PH_PREINIT || ph >= PH_STATIC_DTOR;
   run(l->fixed[ph], ph);
   nodl = 0;
   if (ph == PH_DTOR101 && getpid() == l->mainpid) l->ended = 1;
}

static void preinit(int, char**, char**) { fixed(PH_PREINIT); }
#ifndef LIFE_NOPREINIT
__attribute__((used, section(".preinit_array"))) static void (*const preinit_p)(int, char**, char**) = preinit;
#endif
__attribute__((constructor(101))) static void ctor101() { fixed(PH_CTOR101); }
__attribute__((constructor)) static void ctor() { fixed(PH_CTOR); }
__attribute__((destructor)) static void dtor() { fixed(PH_DTOR); }
__attribute__((destructor(101))) static void dtor101() { fixed(PH_DTOR101); }
__attribute__((destructor(102))) static void dtor102() { fixed(PH_FINI); }
struct Static {
   Static() { fixed(PH_STATIC); }
   ~Static() { fixed(PH_STATIC_DTOR); }
};
static Static st;

static void* exit_thread(void*) { exit(0); }

int main() {
   LFile* l = life();
   fixed(PH_MAIN);
   if (l->end == END_PTHREAD_EXIT || l->end == END__EXIT) {      // no thread may be left
      leaving = 1;
      for (int i = 0; i < LMAXTHREAD; i++) if (thr[i].alive && thr[i].pid == getpid()) { thr[i].idle = 0; fset(&thr[i].cmd, -1); pthread_join(thr[i].t, nullptr); thr[i].alive = 0; }
   }
   if (getpid() == l->mainpid && (l->end == END__EXIT || l->end == END_QUICK)) l->ended = 1;
   switch (l->end) {
   case END_EXIT: exit(0);
   case END_EXIT_THREAD: { pthread_t t; pthread_create(&t, nullptr, exit_thread, nullptr); pthread_join(t, nullptr); _exit(94); }
   case END_QUICK: quick_exit(0);
   case END_EXIT_SIGNAL: { struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = on_signal; sigaction(SIGUSR1, &s, nullptr); sig_exit = 1; raise(SIGUSR1); _exit(94); }
   case END__EXIT: _exit(0);
   case END_PTHREAD_EXIT: pthread_exit(nullptr);
   default: return 0;
   }
}
