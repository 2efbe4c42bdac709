/* drives lib/readline/linenoise.c with keys read from a script; the terminal is this program */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <termios.h>
#include "linenoise.h"
#define MAXROW 9000
static int cols = 80, raw, active, col, len;
static unsigned char row[MAXROW];
static unsigned char *script; static int slen, sat, *cut, *keyend;   /* bytes, chunk ends, key ends */
static FILE *out;
static void snap(void) { int i, n = len; while (n && row[n-1] == ' ') n--; fputs("S ", out); for (i = 0; i < n; i++) fprintf(out, "%02x", row[i]); fprintf(out, " %d\n", col); }
static void put(const unsigned char *s, size_t n) {
  size_t i = 0;
  while (i < n) {
    if (s[i] == 27 && i + 1 < n && s[i+1] == '[') {
      int v = 0, has = 0; i += 2;
      while (i < n && s[i] >= '0' && s[i] <= '9') v = v * 10 + s[i++] - '0', has = 1;
      if (i >= n) break;
      switch (s[i++]) {
      case 'G': col = v ? v - 1 : 0; break;
      case 'C': col += v ? v : 1; break;
      case 'D': col -= v ? v : 1; if (col < 0) col = 0; break;
      case 'K': if (!has || v == 0) len = col < len ? col : len; else if (v == 2) len = 0; break;
      case 'H': col = 0; break;
      case 'J': len = 0; break;
      default: fprintf(out, "E escape\n");
      }
    } else if (s[i] == '\r') col = 0, i++;
    else if (s[i] == '\b') { if (col) col--; i++; }
    else if (s[i] == 7 || s[i] == '\n') i++;
    else { if (col < MAXROW) { while (len < col) row[len++] = ' '; row[col++] = s[i]; if (col > len) len = col; } i++; }
  }
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd != 0 || !active) return syscall(SYS_read, fd, b, n);
  if (sat && keyend[sat - 1]) snap();
  if (sat >= slen) { fprintf(out, "E more\n"); fflush(out); _exit(3); }
  size_t k = 0; unsigned char *p = b;
  while (k < n && sat < slen) { p[k++] = script[sat++]; if (cut[sat - 1] || keyend[sat - 1]) break; }
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { if (active && fd >= 0 && fd <= 1) { put(b, n); return n; } return syscall(SYS_write, fd, b, n); }
int isatty(int fd) { return fd >= 0 && fd <= 2; }
int tcgetattr(int fd, struct termios *t) { memset(t, 0, sizeof *t); t->c_lflag = raw ? 0 : ECHO | ICANON | ISIG; return 0; }
int tcsetattr(int fd, int a, const struct termios *t) { raw = !(t->c_lflag & ICANON); return 0; }
int ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void *p = va_arg(a, void *); va_end(a); if (r == TIOCGWINSZ) { memset(p, 0, sizeof(struct winsize)); ((struct winsize *)p)->ws_col = cols; return 0; } return syscall(SYS_ioctl, fd, r, p); }
static void compl(const char *b, linenoiseCompletions *lc) {
  size_t n = strlen(b); char *t = malloc(n + 3); if (!n || n >= 4087) { free(t); return; }
  if (b[n-1] == 'c') { sprintf(t, "%sx", b); linenoiseAddCompletion(lc, t); sprintf(t, "%syz", b); linenoiseAddCompletion(lc, t); }
  else if (b[n-1] == 'x') linenoiseAddCompletion(lc, "a b");
  free(t);
}
static int hex(const char *s, unsigned char *d) { int n = 0; unsigned v; while (sscanf(s, "%2x", &v) == 1 && s[0] > ' ' && s[0] != '|') { d[n++] = v; s += 2; } d[n] = 0; return n; }
static void one(char **L, int n) {
  static unsigned char t[9000]; int i, j;
  linenoiseSetCompletionCallback(compl);
  for (i = 0; i < n; i++) {
    char *s = L[i];
    if (!strncmp(s, "cols ", 5)) cols = atoi(s + 5);
    else if (!strncmp(s, "max ", 4)) linenoiseHistorySetMaxLen(atoi(s + 4));
    else if (!strncmp(s, "add ", 4)) { hex(s + 4, t); linenoiseHistoryAdd((char *)t); }
    else if (!strncmp(s, "file ", 5)) { fputs("F", out); linenoiseHistorySave(s + 5); FILE *f = fopen(s + 5, "r"); char *q = NULL; size_t z = 0; ssize_t k; while (f && (k = getline(&q, &z, f)) > 0) { fputc(' ', out); if (q[k-1] == '\n') k--; fputc('.', out); for (j = 0; j < k; j++) fprintf(out, "%02x", (unsigned char)q[j]); } fputc('\n', out); if (f) fclose(f); }
    else if (!strncmp(s, "reload ", 7)) { linenoiseHistorySave(s + 7); linenoiseHistoryLoad(s + 7); }
    else if (!strncmp(s, "line ", 5)) { /* line PROMPT KEY KEY ... */
      unsigned char prompt[64]; char *w = strtok(s + 5, " "); hex(w + 1, prompt); size_t cap = 20000;
      script = calloc(1, cap); cut = calloc(cap, sizeof(int)); keyend = calloc(cap, sizeof(int)); slen = sat = 0;
      while ((w = strtok(NULL, " "))) { char *x = strchr(w, '*'); int rep = 1; if (x) { rep = atoi(x + 1); *x = 0; }
        for (j = 0; j < rep; j++) { char *y = w; while (*y) { int k = hex(y, script + slen); slen += k; y += 2 * k; if (*y == '|') { cut[slen - 1] = 1; y++; } } } keyend[slen - 1] = 1; }
      col = len = 0; active = 1; char *r = linenoise((char *)prompt); active = 0;
      if (raw) fputs("E raw\n", out);
      if (sat != slen) fprintf(out, "E left %d\n", slen - sat);
      fputs(r ? "L " : "N", out); if (r) { for (j = 0; r[j]; j++) fprintf(out, "%02x", (unsigned char)r[j]); free(r); } fputc('\n', out);
    }
  }
  fflush(out);
}
int main(void) {
  char **L = NULL; int n = 0, cap = 0; char *q = NULL; size_t z = 0; ssize_t k; FILE *in = fdopen(dup(0), "r"); out = fdopen(dup(1), "w");
  while ((k = getline(&q, &z, in)) > 0) {
    if (q[k-1] == '\n') q[k-1] = 0;
    if (!strcmp(q, "---")) {
      fflush(out); pid_t p = fork(); int st;
      if (!p) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); alarm(10); one(L, n); _exit(0); }
      waitpid(p, &st, 0); fprintf(out, "--- %d\n", WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st));
      while (n) free(L[--n]);
    } else { if (n == cap) L = realloc(L, (cap = cap * 2 + 64) * sizeof *L); L[n++] = strdup(q); }
  }
  fflush(out); return 0;
}
