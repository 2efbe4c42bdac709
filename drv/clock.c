/* Preloaded into a program: a virtual clock. Waiting moves it at once, opening "@now" shows it, opening "@sleep N" moves it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/epoll.h>
static long now = 1000000;      // ms
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now / 1000; t->tv_nsec = now % 1000 * 1000000; return 0; }
static int wait_(int fd, struct epoll_event *e, int n, int ms, const sigset_t *s) {
  static int (*real)(int, struct epoll_event *, int, int, const sigset_t *);
  if (!real) real = dlsym(RTLD_NEXT, "epoll_pwait");
  int r = real(fd, e, n, 0, s);
  if (r != 0 || ms == 0) return r;
  if (ms < 0) { printf("blocked@%ld", now - 1000000); fflush(stdout); _exit(0); }
  now += ms;
  return 0;
}
int epoll_pwait(int fd, struct epoll_event *e, int n, int ms, const sigset_t *s) { return wait_(fd, e, n, ms, s); }
int epoll_wait(int fd, struct epoll_event *e, int n, int ms) { return wait_(fd, e, n, ms, NULL); }
static int open_(const char *name, const char *p, int fl, mode_t m) {
  if (p[0] == '@') {
    if (!strcmp(p, "@now")) printf("@%ld", now - 1000000); else if (!strncmp(p, "@sleep ", 7)) now += atol(p + 7);
    errno = ENOENT; return -1;
  }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, name))(p, fl, m);
}
#define ARG va_list a; mode_t m; va_start(a, fl); m = va_arg(a, int); va_end(a)
int open(const char *p, int fl, ...) { ARG; return open_("open", p, fl, m); }
int open64(const char *p, int fl, ...) { ARG; return open_("open64", p, fl, m); }
