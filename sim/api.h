/* Registry of the public entry points of the three libraries.
 *
 * Every entry is called through one uniform signature:
 *   call(n, arg, res)
 * where arg points to the argument in caller owned storage (one or two
 * float/double/long double), n is the order for the functions of general
 * order, and res points to storage for the result.  Languages that pass by
 * reference get the pointer itself, so the storage really is the caller's. */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef void (*api_call)(int64_t n, const void* arg, void* res);

enum api_prec { P_FLOAT = 0, P_DOUBLE = 1, P_LDOUBLE = 2 };
enum api_fam { F_LI = 0, F_CL = 1, F_SL = 2 };
enum api_lang { L_C = 0, L_CPP = 1, L_FORTRAN = 2 };

struct api_fn {
   const char* name;
   api_call call;
   int lang;     /* api_lang */
   int fam;      /* api_fam  */
   int order;    /* 1..6, 0: general order n */
   int prec;     /* api_prec */
   int cplx;     /* complex argument and result */
};

extern const struct api_fn api_c[];
extern const int api_c_len;
extern const struct api_fn api_cpp[];
extern const int api_cpp_len;

#ifdef __cplusplus
}
#endif
