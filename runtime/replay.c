// Runs the real runtime functions (gcc, hosted, only the system call replaced)
// on the requests read from standard input and prints what they did.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include "decl.h"

static jmp_buf done;
static sigjmp_buf crash;
static long sysret;
static int inbyte, reads, narrow;
static char log_[1 << 20];
static unsigned long logn;

long verif_syscall(long n, long a1, long a2, long a3)
{
    if (n == SYS_write && !narrow) {
        logn += sprintf(log_ + logn, " w%ld:", a1);
        for (long i = 0; i < a3 && i < 4096; i++)
            logn += sprintf(log_ + logn, "%02x", ((unsigned char *)a2)[i]);
        if (logn > sizeof log_ - 16384)
            siglongjmp(crash, 2);
        return a3;
    }
    logn += sprintf(log_ + logn, " c%ld:%ld:%ld:%ld", n, a1, n == SYS_exit || n == SYS_exit_group || !narrow ? 0 : a2, a3);
    if (n == SYS_exit || n == SYS_exit_group)
        longjmp(done, 1);
    if (!narrow && n == SYS_read) {
        if (sysret == 1)
            *(unsigned char *)a2 = inbyte;
    }
    return sysret;
}

static long mainret;
long verif_main(void) { return mainret; }
static void sig(int s) { (void)s; siglongjmp(crash, 1); }

// a string right in front of an unmapped page
static unsigned char *pages[16];
static unsigned char *guard(int slot, const char *hex)
{
    if (!pages[slot]) {
        unsigned char *p = mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(p, 4096, PROT_NONE);
        mprotect(p + 2 * 4096, 4096, PROT_NONE);
        pages[slot] = p + 4096;
    }
    unsigned long n = strlen(hex) / 2;
    unsigned char *p = pages[slot] + 4096 - n;
    for (unsigned long i = 0; i < n; i++)
        sscanf(hex + 2 * i, "%2hhx", p + i);
    return p;
}

int main(int argc, char **argv)
{
    static char line[1 << 16];
    signal(SIGSEGV, sig);
    signal(SIGBUS, sig);
    signal(SIGALRM, sig);
    while (fgets(line, sizeof line, stdin)) {
        char *tok[64];
        int n = 0;
        for (char *t = strtok(line, " \n"); t && n < 60; t = strtok(0, " \n"))
            tok[n++] = t;
        if (n < 2)
            continue;
        B_fout = atol(tok[1]);
        logn = 0;
        log_[0] = 0;
        narrow = 0;
        long ret = 0;
        int how;
        alarm(5);
        if ((how = sigsetjmp(crash, 1))) {
            printf("CRASH %d\n", how);
            fflush(stdout);
            continue;
        }
        if (setjmp(done) == 0) {
#define L(k) strtol(tok[k], 0, 10)
            if (!strcmp(tok[0], "printd")) B_printd(L(2));
            else if (!strcmp(tok[0], "printo")) B_printo(L(2));
            else if (!strcmp(tok[0], "write")) B_write(L(2));
            else if (!strcmp(tok[0], "writeb")) B_writeb(L(2));
            else if (!strcmp(tok[0], "char")) { // char fout hex base index
                ret = B_char((long)(guard(0, tok[2]) + L(3)), L(4));
            } else if (!strcmp(tok[0], "lchar")) { // lchar fout hex base index chr
                unsigned char *p = guard(0, tok[2]);
                B_lchar((long)(p + L(3)), L(4), L(5));
                logn += sprintf(log_ + logn, " m");
                for (unsigned long i = 0; i < strlen(tok[2]) / 2; i++)
                    logn += sprintf(log_ + logn, "%02x", p[i]);
            } else if (!strcmp(tok[0], "read")) { // read fout sysret byte
                sysret = L(2);
                inbyte = L(3);
                ret = B_read();
            } else if (!strcmp(tok[0], "nread") || !strcmp(tok[0], "nwrite")) {
                narrow = 1;
                sysret = L(5);
                ret = tok[0][1] == 'r' ? B_nread(L(2), L(3), L(4)) : B_nwrite(L(2), L(3), L(4));
            } else if (!strcmp(tok[0], "exit")) B_exit();
            else if (!strcmp(tok[0], "start")) {
                mainret = L(2);
                B_start();
            } else if (!strcmp(tok[0], "printf")) { // printf fout fmthex (d N | s hex)...
                long a[8] = { 0 };
                int na = 0;
                unsigned char *f = guard(9, tok[2]);
                for (int k = 3; k + 1 < n && na < 8; k += 2, na++)
                    a[na] = tok[k][0] == 's' ? (long)guard(na, tok[k + 1]) : L(k + 1);
                B_printf((long)f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
            }
        }
        alarm(0);
        printf("%ld%s\n", ret, log_);
        fflush(stdout);
    }
    return 0;
}
