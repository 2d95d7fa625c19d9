// Compiled in front of every runtime source file (-include stub.h): replaces
// the inline-assembly system call of runtime.h by a call of the environment
// model, and nothing else.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/syscall.h>
#undef __x86_64__
long verif_syscall(long n, long a1, long a2, long a3);
static inline long syscall(long n, long a1, long a2, long a3)
{
    return verif_syscall(n, a1, a2, a3);
}

#ifdef VERIF_CAST
// The word-sized arguments of these calls are passed in whole registers: an
// argument of type int is widened, as the machine does.
#include "runtime.h"
#define VERIF_N(_1, _2, _3, N, ...) N
#define VERIF_1(f, ...) f(__VA_ARGS__)
#define VERIF_3(f, a, b, c) f((word_t)(a), (word_t)(b), (word_t)(c))
#define b_nread(...) VERIF_N(__VA_ARGS__, VERIF_3, VERIF_1, VERIF_1,)(b_nread, __VA_ARGS__)
#define b_nwrite(...) VERIF_N(__VA_ARGS__, VERIF_3, VERIF_1, VERIF_1,)(b_nwrite, __VA_ARGS__)
#define b_lchar(...) VERIF_N(__VA_ARGS__, VERIF_3, VERIF_1, VERIF_1,)(b_lchar, __VA_ARGS__)
#endif
