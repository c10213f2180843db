// Scenarios and their execution
#pragma once
#include "core.hpp"

enum EvKind { EV_SWITCH, EV_SIGNAL, EV_ABANDON, EV_STALL, EV_FORK, EV_NKINDS };
extern const char* ev_names[];

struct Op {
   int call = 0;
   u64 amb = 0;          // ambient seed: stack, registers, errno, heap, clock, environment (0: clean)
};
struct Ev {
   int op = 0;           // operation in which it happens
   int byhot = 0;        // 0: at the step-th step of the call, 1: at the n-th access of shared memory
   u64 at = 0;
   int kind = 0;
   int arg = 0;          // EV_SWITCH: thread; EV_FORK: 1: child resumes the call, 0: child abandons it
   int cont = -1;        // operations run by the handler / the forked child
};

// what is checked after every operation
enum Check {
   CK_RESULT = 1, CK_ARGS = 2, CK_ENV = 4, CK_STEPS = 8, CK_STATE = 16, CK_ACC = 32,
   CK_SPECIAL = 64, CK_AGREE = 128, CK_FLAGS = 256, CK_SYM = 512, CK_WORK = 1024, CK_IO = 2048, CK_REAL = 4096
};

struct Scenario {
   std::string prop;
   u64 seed = 0;
   unsigned checks = 0;
   std::vector<Call> calls;
   std::vector<Op> ops;
   std::vector<std::vector<int>> conts;   // first nthreads: the threads, then handlers
   int nthreads = 1;
   std::vector<Ev> evs;
   int allocmode = 0; u64 allocarg = 0;
   int seccomp = 0;
   u64 stacklim = 0;
   u64 cap = 0;                           // step bound per call, 0: default
   u64 reps = 1;                          // the operations of thread 0 are repeated

   std::string ser() const;
   bool parse(const std::string& text);
};

enum VKind {
   V_NONE, V_RESULT, V_CRASH, V_BLOCKED, V_STEPS, V_ARGS, V_ENV, V_FLAGS, V_STATE, V_EXIT, V_EXCEPTION,
   V_ACCURACY, V_SPECIAL, V_AGREE, V_SYMMETRY, V_TRAP, V_IO, V_STACK, V_REAL, V_NKINDS
};
extern const char* v_names[];

struct Slot {
   int state;            // 0 not run, 1 started, 2 done, 3 abandoned, 4 stalled
   u64 steps, hot, libm_calls;
   Res res;
   unsigned raised;
};

enum { ST_OPS, ST_SWITCH, ST_SIGNAL, ST_ABANDON, ST_STALL, ST_FORK, ST_FORKED_DONE, ST_BLOCKWAIT, ST_STEPS, ST_LIBM, ST_LIBMPERT,
       ST_ALLOCS, ST_ALLOCFAIL, ST_SYSCALLS, ST_LOCKS, ST_HOT, ST_ENVCH, ST_FTZ, ST_TRAPS, ST_PEND, ST_RM, ST_AMB, ST_SIMNS, ST_REF, ST_SKIP, ST_N };
extern const char* st_names[];

enum { MAXSLOTS = 4096 };
struct Shm {
   volatile int done;
   int vkind, vop;
   char vmsg[600];
   u64 hash;
   u64 opindex;          // sequence number of the operation that violated
   u64 st[ST_N];
   u64 maxsteps; int maxsteps_op;
   u64 maxstack;
   double maxerr; int maxerr_op; u64 extra;
   Slot slot[MAXSLOTS];
   Slot forked[256];
   double err_fn[256];   // [0,128): adverse environments, [128,256): default environment
};

struct Violation {
   int kind = 0, op = -1;
   std::string msg;
   u64 hash = 0;
   u64 opindex = 0;
};

void exec_init();
extern Shm* shm;
// run in a forked child; expect: isolated results per call (may be null)
Violation run_scenario(const Scenario& sc, const std::vector<Slot>* expect);
// result of the call made alone in a fresh process; warm: of an immediate repetition
bool pristine(const Call& c, Slot& cold, Slot* warm, std::string& err, u64 cap = 0, std::vector<u64>* hotsteps = nullptr);
bool is_inst();
std::string op_label(const Scenario& sc, int op);
void child_violation(int kind, int op, const std::string& msg);

// numerical oracles (oracle.cpp); called in the child
struct OracleOut { int kind; std::string msg; };
bool near_overflow(const Call& c);
bool oracle_check(unsigned checks, const Call& c, const Slot& s, OracleOut& out);
extern std::vector<Slot> call_batch_tmp;
Res call_plain(const Call& c, unsigned* raised);   // direct call in c.env, used by relational oracles
