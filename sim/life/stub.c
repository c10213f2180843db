/* stands for the library in the control lives: if a life fails with it, too,
 * the failure is not the library's */
#include "../api.h"
static void nothing(int64_t n, const void* a, void* r) { (void)n; (void)a; (void)r; }
#define S4 { "stub", nothing, 0, 0, 0, 0, 0 }, { "stub", nothing, 0, 0, 0, 0, 0 }, { "stub", nothing, 0, 0, 0, 0, 0 }, { "stub", nothing, 0, 0, 0, 0, 0 },
#define S32 S4 S4 S4 S4 S4 S4 S4 S4
const struct api_fn api_c[] = { S32 S32 S32 S32 };
const int api_c_len = 64;
const struct api_fn api_cpp[] = { S32 S32 S32 S32 };
const int api_cpp_len = 64;
