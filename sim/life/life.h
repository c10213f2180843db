/* Shared between the process under simulation (driver.cpp, so.cpp) and the
 * orchestrator (../life.cpp): the scenario of one process life and its log,
 * in a file mapped by both (file descriptor LIFE_FD). */
#pragma once
#include <stdint.h>
#include "../api.h"

enum { LIFE_FD = 9, LMAXCALL = 256, LMAXACT = 2048, LMAXBLOCK = 256, LMAXREC = 8192, LMAXSO = 8, LMAXSLOT = 8, LMAXTHREAD = 8 };

/* where a block of actions runs if nothing else starts it */
enum LPhase { PH_PREINIT, PH_CTOR101, PH_CTOR, PH_STATIC, PH_MAIN, PH_STATIC_DTOR, PH_DTOR, PH_DTOR101, PH_FINI, PH_SO_CTOR, PH_SO_STATIC, PH_SO_STATIC_DTOR, PH_SO_DTOR, PH_N,
   /* started by actions */
   PH_ATEXIT = PH_N, PH_QUICK, PH_THREAD, PH_TLS, PH_KEY, PH_SIGNAL, PH_FORK, PH_ALL };

enum LKind { A_CALL, A_CALLSO, A_ATEXIT, A_QUICK, A_THREAD, A_RESUME, A_FINISH, A_TLS, A_KEY, A_SIGNAL, A_FORK, A_DLOPEN, A_DLCLOSE, A_CLOSEFD, A_SETSID, A_NKINDS };

enum LEnd { END_RETURN, END_EXIT, END_EXIT_THREAD, END_QUICK, END_EXIT_SIGNAL, END__EXIT, END_PTHREAD_EXIT, END_N };

struct LCall { int fn, rm, ftz, pad; int64_t n; unsigned char arg[32]; };
struct LAct { int kind, a, b, c; };
struct LBlock { int first, count; };
struct LRec { int state, where, act, call, pid, status; unsigned char res[32]; };   /* state 1 started, 2 done, 3 child failed */

struct LFile {
   int ncalls, nacts, nblocks, end;
   int fixed[PH_N];
   volatile int nrec, ended, mainpid, fail;
   volatile int count[A_NKINDS], phase[PH_ALL];
   struct LCall calls[LMAXCALL];
   struct LAct acts[LMAXACT];
   struct LBlock blocks[LMAXBLOCK];
   struct LRec rec[LMAXREC];
   char so[LMAXSO][256];
};
