/* Preloaded: every unset variable is set to "1", and the clocks run ten years ahead. Names asked for are logged. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static char *find(const char *n) {
    size_t k = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
    return 0;
}
char *getenv(const char *n) {
    char *v = find(n), *log;
    if (!strncmp(n, "RUST_", 5) || !strncmp(n, "LD_", 3) || !strncmp(n, "MALLOC", 6) || !strncmp(n, "GLIBC", 5) || !strncmp(n, "D7_", 3)) return v;
    if ((log = find("D7_SHIM_LOG"))) {
        int f = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (f >= 0) {
            char b[128];
            size_t k = strnlen(n, 120);
            memcpy(b, n, k);
            b[k] = '\n';
            if (write(f, b, k + 1) < 0) {}
            close(f);
        }
    }
    return v ? v : (char *)"1";
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    t->tv_sec += 10L * 365 * 86400;
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
