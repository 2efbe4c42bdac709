/* Runs many short programs: one job per line of stdin,
     timeout_ms TAB NAME=VALUE|- TAB argv0 TAB argv1 ...
   and for each prints "status length\n", the captured stdout+stderr, "\n".
   status: exit code, 128+signal, 999 on timeout, or 998 when the job was not
   run because as many jobs as the argument says timed out before it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#define MAXOUT (1<<18)
static long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
int main(int argc, char **argv) {
  int stuck = 0, most = argc > 1 ? atoi(argv[1]) : 1 << 30;
  if (!getenv("VERIF_ASLR")) personality(ADDR_NO_RANDOMIZE);   // the same addresses every time
  static char line[1<<16], out[MAXOUT + 4096];
  while (fgets(line, sizeof line, stdin)) {
    char *f[64]; int n = 0, p[2], st; size_t len = 0; long t0, lim; pid_t pid; int over = 0;
    line[strcspn(line, "\n")] = 0;
    for (char *s = line; s && n < 63; n++) { f[n] = s; s = strchr(s, '\t'); if (s) *s++ = 0; }
    f[n] = NULL;
    lim = atol(f[0]);
    if (stuck >= most) { printf("998 0\n\n"); continue; }
    if (pipe(p)) return 3;
    fflush(stdout);
    if (!(pid = fork())) {
      struct rlimit a = { 3ul << 30, 3ul << 30 }, c = { 0, 0 }, fs = { 64 << 20, 64 << 20 };
      int nul = open("/dev/null", O_RDONLY);
      setrlimit(RLIMIT_AS, &a); setrlimit(RLIMIT_CORE, &c); setrlimit(RLIMIT_FSIZE, &fs);
      setpgid(0, 0);
      dup2(nul, 0); dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
      if (strcmp(f[1], "-")) putenv(f[1]);
      execv(f[2], f + 2); _exit(127);
    }
    close(p[1]);
    for (t0 = now();;) {
      struct pollfd q = { p[0], POLLIN, 0 }; long left = t0 + lim - now(); ssize_t r;
      if (left <= 0 || len >= MAXOUT) { over = 1; break; }
      if (poll(&q, 1, left) <= 0) continue;
      r = read(p[0], out + len, 4096);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) break;
      len += r;
    }
    while (!over) {   // its output may be elsewhere
      siginfo_t si; memset(&si, 0, sizeof si);
      if (waitid(P_PID, pid, &si, WEXITED | WNOWAIT | WNOHANG) < 0 || si.si_pid) break;
      if (now() - t0 >= lim) { over = 1; break; }
      usleep(200);
    }
    if (over) kill(-pid, SIGKILL), kill(pid, SIGKILL);
    if (over && len < MAXOUT) stuck++;
    close(p[0]);
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    printf("%d %zu\n", over ? 999 : WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st), len);
    fwrite(out, 1, len, stdout); putchar('\n');
  }
  return 0;
}
