/* Preloaded stand-in: records the line settings a program asks for on a terminal. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>
#include <unistd.h>
struct t2 { unsigned iflag, oflag, cflag, lflag; unsigned char line, cc[19]; unsigned ispeed, ospeed; };
static void rec(unsigned cflag, unsigned ispeed, unsigned ospeed) {
    const char *p = getenv("TTYREC");
    if (!p) return;
    int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (f < 0) return;
    char b[96];
    int n = snprintf(b, sizeof b, "%u %u %u\n", cflag, ispeed, ospeed);
    if (write(f, b, n)) {}
    close(f);
}
int ioctl(int fd, unsigned long req, ...) {
    static int (*real)(int, unsigned long, ...);
    va_list a;
    va_start(a, req);
    void *p = va_arg(a, void *);
    va_end(a);
    if (!real) real = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
    if (req == 0x402c542bUL || req == 0x402c542cUL || req == 0x402c542dUL) { struct t2 t; memcpy(&t, p, sizeof t); rec(t.cflag, t.ispeed, t.ospeed); }
    return real(fd, req, p);
}
int tcsetattr(int fd, int act, const struct termios *t) {
    static int (*real)(int, int, const struct termios *);
    if (!real) real = (int (*)(int, int, const struct termios *))dlsym(RTLD_NEXT, "tcsetattr");
    rec(t->c_cflag, t->c_ispeed, t->c_ospeed);
    return real(fd, act, t);
}
