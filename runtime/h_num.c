// printd and printo (C26): the bytes written to the selected output are the
// shortest numeral of the argument, for every argument.
#include <sys/syscall.h>
#include "decl.h"
void *memcpy(void *, const void *, unsigned long);
unsigned char out[64];
unsigned long outn;
word fd;
long nondet_long(void);

long verif_syscall(long n, long a1, long a2, long a3)
{
    __CPROVER_assert(n == SYS_write, "C26.output.call: only writes");
    __CPROVER_assert(a1 == fd, "C26.output.file: writes go to the selected output");
    __CPROVER_assert(a3 >= 0 && (unsigned long)a3 <= 32 - outn, "C26.output.size: numeral has a sane length");
    __CPROVER_assume(a3 >= 0 && (unsigned long)a3 <= 32 - outn);
    unsigned char *p = (unsigned char *)a2;
    for (long k = 0; k < 32; k++)
        if (k < a3)
            out[outn + k] = p[k];
    outn += a3;
    return nondet_long();
}

void harness(void)
{
    word n = nondet_long();
    B_fout = nondet_long();
    fd = (word)((unsigned long)B_fout + 1);
#ifdef NEG
    __CPROVER_assume(n < 0);
#else
    __CPROVER_assume(n >= 0);
#endif
    FUN(n);
    // The numeral, from its definition: num(m) = digit(m) if m < BASE,
    // else num(m / BASE) followed by digit(m % BASE).
    unsigned char want[32];
    unsigned long mag = n, k = 0, at = 32;
#if BASE == 10
    if (n < 0)
        mag = MAG(mag);
#endif
    for (int i = 0; i < 24; i++) {
        want[--at] = '0' + mag % BASE;
        mag = mag / BASE;
        if (mag == 0)
            break;
    }
    __CPROVER_assert(mag == 0, "C26.spec: the numeral has at most 24 digits");
#if BASE == 10
    if (n < 0)
        want[--at] = '-';
#endif
    __CPROVER_assert(outn == 32 - at, "C26.length: exactly as many bytes as the shortest numeral");
    for (int i = 0; i < 25; i++)
        __CPROVER_assert(i >= outn || out[i] == want[at + i], "C26.digits: the bytes are those of the numeral");
#ifdef VACUITY
    __CPROVER_assert(0, "vacuity");
#endif
}
