// write, writeb, char, lchar (C28) and read, nread, nwrite, exit, start (C29).
#include <sys/syscall.h>
#include "decl.h"
void *malloc(unsigned long);
long nondet_long(void);
unsigned long nondet_ulong(void);
unsigned char nondet_uchar(void);
_Bool nondet_bool(void);

// log of the system calls
struct call { long n, a1, a2, a3, ret; };
static struct call calls[12];
static unsigned ncalls;
static unsigned char out[16];
static unsigned outn;
static word fd;
static word code;
static unsigned char input;

#if defined(CHECK_write) || defined(CHECK_writeb)
long verif_syscall(long n, long a1, long a2, long a3)
{
    __CPROVER_assert(n == SYS_write, "C28.output.call: only writes");
    __CPROVER_assert(a1 == fd, "C28.output.file: writes go to the selected output");
    __CPROVER_assert(a3 >= 0 && a3 <= 8 && outn + a3 <= 8, "C28.output.count: at most the bytes of a word");
    __CPROVER_assume(a3 >= 0 && a3 <= 8 && outn + a3 <= 8);
    for (long k = 0; k < 8; k++)
        if (k < a3)
            out[outn + k] = ((unsigned char *)a2)[k];
    outn += a3;
    return nondet_long();
}
#else
long verif_syscall(long n, long a1, long a2, long a3)
{
#if defined(CHECK_exit) || defined(CHECK_start)
    if (n == SYS_exit || n == SYS_exit_group) {
        // the process ends here
        __CPROVER_assert((a1 & 0xff) == (code & 0xff), "C29.exit: the process ends with status 0, or with the value main returns");
#ifdef VACUITY
        __CPROVER_assert(0, "vacuity");
#endif
        __CPROVER_assume(0);
    }
    __CPROVER_assert(0, "C29.exit: no other request is made");
    __CPROVER_assume(0);
#endif
    __CPROVER_assert(ncalls < 1, "C29.calls: exactly one request");
    __CPROVER_assume(ncalls < 1);
    struct call *c = &calls[ncalls++];
    c->n = n;
    c->a1 = a1;
    c->a2 = a2;
    c->a3 = a3;
    c->ret = nondet_long();
#ifdef CHECK_read
    __CPROVER_assert(n == SYS_read && a1 == 0 && a3 == 1, "C29.read.call: asks for one byte of standard input");
    __CPROVER_assume(c->ret <= 1);
    if (c->ret == 1)
        *(unsigned char *)a2 = input;
#endif
    return c->ret;
}
#endif

#ifdef CHECK_start
word main(void) { return code; }
#endif

void harness(void)
{
    B_fout = nondet_long();
    fd = (word)((unsigned long)B_fout + 1);
#ifdef CHECK_write
    word x = nondet_long();
    B_write(x);
    unsigned char want[8];
    unsigned wn = 0;
    for (int k = 7; k >= 0; k--) {
        unsigned char b = (unsigned long)x >> (8 * k);
        if (b != 0 || wn != 0 || k == 0)
            want[wn++] = b;
    }
    __CPROVER_assert(outn == wn, "C28.write.length: characters without leading zero bytes, at least one");
    for (unsigned k = 0; k < 8; k++)
        __CPROVER_assert(k >= wn || out[k] == want[k], "C28.write.bytes: most significant character first");
#endif
#ifdef CHECK_writeb
    word x = nondet_long();
    B_writeb(x);
    __CPROVER_assert(outn == 1, "C28.writeb.length: exactly one byte");
    __CPROVER_assert(out[0] == (unsigned char)x, "C28.writeb.byte: the low byte");
#endif
#ifdef CHECK_char
    unsigned long size = nondet_ulong(), at = nondet_ulong();
    word i = nondet_long();
    __CPROVER_assume(size > 0 && size < (1UL << 40) && at < size && i >= -(word)at && i < (word)(size - at));
    unsigned char *obj = malloc(size);
    __CPROVER_assume(obj != 0);
    unsigned long other = nondet_ulong();
    __CPROVER_assume(other < size);
    unsigned char o = obj[other], b = obj[at + i];
    word r = B_char((word)(obj + at), i);
    __CPROVER_assert(r == (word)b, "C28.char.value: the i-th byte, 0 to 255");
    __CPROVER_assert(obj[other] == o, "C28.char.frame: memory is unchanged");
#endif
#ifdef CHECK_lchar
    unsigned long size = nondet_ulong(), at = nondet_ulong();
    word i = nondet_long(), c = nondet_long();
    __CPROVER_assume(size > 0 && size < (1UL << 40) && at < size && i >= -(word)at && i < (word)(size - at));
    unsigned char *obj = malloc(size);
    __CPROVER_assume(obj != 0);
    unsigned long other = nondet_ulong();
    __CPROVER_assume(other < size && other != at + i);
    unsigned char o = obj[other];
    B_lchar((word)(obj + at), i, c);
    __CPROVER_assert(obj[at + i] == (unsigned char)c, "C28.lchar.value: the i-th byte is changed");
    __CPROVER_assert(obj[other] == o, "C28.lchar.frame: no other byte is changed");
#endif
#ifdef CHECK_read
    input = nondet_uchar();
    word r = B_read();
    __CPROVER_assert(ncalls == 1, "C29.read.once: one byte is taken from the input");
    if (calls[0].ret == 1)
        __CPROVER_assert(r == (input <= 127 ? (word)input : 0), "C29.read.value: the byte if it is 1 to 127, else 0");
    else
        __CPROVER_assert(r == 4, "C29.read.end: 4 at the end of the input and on errors");
#endif
#ifdef CHECK_nread
    word f = nondet_long(), b = nondet_long(), n = nondet_long();
    word r = B_nread(f, b, n);
    __CPROVER_assert(ncalls == 1, "C29.nread.once: one request");
    __CPROVER_assert(calls[0].n == SYS_read && calls[0].a1 == f && calls[0].a2 == b && calls[0].a3 == n,
                     "C29.nread.call: reads with the file, buffer and count given");
    __CPROVER_assert(r == calls[0].ret, "C29.nread.result: the result of the system");
#endif
#ifdef CHECK_nwrite
    word f = nondet_long(), b = nondet_long(), n = nondet_long();
    word r = B_nwrite(f, b, n);
    __CPROVER_assert(ncalls == 1, "C29.nwrite.once: one request");
    __CPROVER_assert(calls[0].n == SYS_write && calls[0].a1 == f && calls[0].a2 == b && calls[0].a3 == n,
                     "C29.nwrite.call: writes with the file, buffer and count given");
    __CPROVER_assert(r == calls[0].ret, "C29.nwrite.result: the result of the system");
#endif
#ifdef CHECK_exit
    code = 0;
    B_exit();
    __CPROVER_assert(0, "C29.exit: the process ends");
#endif
#ifdef CHECK_start
    code = nondet_long();
    B_start();
    __CPROVER_assert(0, "C29.start: the process ends");
#endif
#if defined(VACUITY) && !defined(CHECK_exit) && !defined(CHECK_start)
    __CPROVER_assert(0, "vacuity");
#endif
}
