/* Generic conformance driver: executes the operations of specification behaviours
   against the real potion runtime, through its public API and by method name, and
   prints the observed result of every operation in a canonical form.

   usage: drv [-B|-X] < script > observations     (one observation line per command)

   values:  n t f  i<int>  d<double>  s<hex>  b<hex>(new bytes)  r<k>(register)  c<k>(closure slot)
   commands:
     reset                       forget all registers
     set  R V                    R := V
     tup  R V...                 R := new list of V...
     tab  R k v k v ...          R := new table built by put
     list R n                    R := list(n)
     send R V method V...        R := V.method(V...) ; prints R
     show V                      prints V
     same V V                    prints 1 if both are the identical object, else 0
     eval R <hex>                R := result of evaluating source text; prints R
     gc   minor|major|churn N    collect / allocate N garbage objects
     global <hexname> V          define a global
     rt   R V                    prints whether V's registers are all alive (identity map)
     hash V                      uniqueness number
     iso                         prints the shape of the whole register file
     each V                      prints the sequence of (k,v)/(v,i) that "each" yields
*/
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "potion.h"
#include "internal.h"
#include "table.h"
#include "gc.h"

#define NREG 256
static char *line; static size_t linecap;
static char **tok; static int ntok, captok;
static char *out; static size_t outlen, outcap;

static void o_raw(const char *s, size_t n) {
  if (outlen + n + 1 > outcap) { outcap = (outlen + n + 1) * 2; out = realloc(out, outcap); }
  memcpy(out + outlen, s, n); outlen += n; out[outlen] = 0;
}
static void o_str(const char *s) { o_raw(s, strlen(s)); }
static void o_hex(const char *s, long n) {
  static const char *H = "0123456789abcdef"; char b[2];
  for (long i = 0; i < n; i++) { b[0] = H[((unsigned char)s[i]) >> 4]; b[1] = H[s[i] & 15]; o_raw(b, 2); }
}

static PN g_seen[512]; static int g_nseen;
static PN each_acc[4096][2]; static int each_n;
static PN each_cb2(Potion *P, PN cl, PN self, PN a, PN b) {
  if (each_n < 4096) { each_acc[each_n][0] = a; each_acc[each_n][1] = b; each_n++; }
  return PN_NIL;
}

static int cmp_s(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int krank(PN v) { return v == PN_NIL ? 0 : v == PN_FALSE ? 1 : v == PN_TRUE ? 2 : PN_IS_INT(v) ? 3 : PN_TYPE(v) == PN_TSTRING ? 4 : 5; }
static int cmp_key(const void *a, const void *b) {   /* nil false true ints strings others */
  PN x = *(PN *)a, y = *(PN *)b; int r = krank(x) - krank(y);
  if (r) return r;
  if (krank(x) == 3) return PN_INT(x) < PN_INT(y) ? -1 : PN_INT(x) > PN_INT(y);
  if (krank(x) == 4) return strcmp(PN_STR_PTR(x), PN_STR_PTR(y));
  return x < y ? -1 : x > y;
}
static void show(Potion *P, PN v, int depth);
static char *show_s(Potion *P, PN v, int depth) {
  size_t at = outlen; show(P, v, depth);
  char *r = strdup(out + at); outlen = at; out[outlen] = 0; return r;
}
static int g_ids;   /* print object identities (first-visit numbering) */
static void show(Potion *P, PN v, int depth) {
  char b[64];
  if (v == PN_NIL) { o_str("n"); return; }
  if (v == PN_TRUE) { o_str("t"); return; }
  if (v == PN_FALSE) { o_str("f"); return; }
  if (PN_IS_INT(v)) { sprintf(b, "i%ld", PN_INT(v)); o_str(b); return; }
  v = potion_fwd(v);
  if (depth > 60) { o_str("..."); return; }
  PNType t = PN_TYPE(v);
  if (t == PN_TSTRING) { o_str("s"); o_hex(PN_STR_PTR(v), PN_STR_LEN(v)); return; }
  if (t == PN_TNUMBER) { sprintf(b, "d%.17g", PN_DBL(v)); o_str(b); return; }
  if (g_ids) {
    for (int i = 0; i < g_nseen; i++) if (g_seen[i] == v) { sprintf(b, "@%d", i); o_str(b); return; }
    if (g_nseen < 512) { sprintf(b, "&%d", g_nseen); g_seen[g_nseen++] = v; o_str(b); }
  }
  if (t == PN_TBYTES) { o_str("b"); o_hex(PN_STR_PTR(v), PN_STR_LEN(v)); return; }
  if (t == PN_TTUPLE) {
    o_str("[");
    for (unsigned long i = 0; i < PN_TUPLE_LEN(v); i++) { if (i) o_str(","); show(P, PN_TUPLE_AT(v, i), depth + 1); }
    o_str("]"); return;
  }
  if (t == PN_TTABLE) {
    PN keys = potion_send(v, potion_str(P, "keys"));
    long n = PN_TUPLE_LEN(keys);
    PN *ks = malloc(sizeof(PN) * (n + 1));   
    PN at = potion_str(P, "at");
    for (long i = 0; i < n; i++) ks[i] = PN_TUPLE_AT(keys, i);
    qsort(ks, n, sizeof(PN), cmp_key);
    o_str("{");
    for (long i = 0; i < n; i++) {
      if (i) o_str(",");
      show(P, ks[i], depth + 1); o_str(":"); show(P, potion_send(v, at, ks[i]), depth + 1);
    }
    o_str("}"); free(ks); return;
  }
  if (t == PN_TERROR) { o_str("E"); return; }
  if (t == PN_TCLOSURE) { o_str("<fn>"); return; }
  if (t == PN_TLICK) {
    struct PNLick *k = (struct PNLick *)v;
    o_str("<k "); show(P, k->name, depth + 1); o_str(" "); show(P, k->inner, depth + 1); o_str(" "); show(P, k->attr, depth + 1); o_str(">"); return;
  }
  sprintf(b, "<T%x>", t > PN_TUSER ? PN_TUSER : t); o_str(b);
}

static PN g_str[512]; static int g_nstr;
static void strings(PN v, int depth) {
  if (!PN_IS_PTR(v) || depth > 20) return;
  v = potion_fwd(v);
  if (PN_TYPE(v) == PN_TSTRING) { if (g_nstr < 512) g_str[g_nstr++] = v; return; }
  if (PN_TYPE(v) != PN_TTUPLE) return;
  for (int i = 0; i < g_nseen; i++) if (g_seen[i] == v) return;
  if (g_nseen < 512) g_seen[g_nseen++] = v;
  for (unsigned long i = 0; i < PN_TUPLE_LEN(v); i++) strings(PN_TUPLE_AT(v, i), depth + 1);
}

static int cb_gc;
static void cb_collect(Potion *P) {
  if (cb_gc == 1) potion_garbagecollect(P, POTION_PAGESIZE, 0);
  else if (cb_gc == 2) potion_garbagecollect(P, POTION_PAGESIZE, 1);
}
static PN cb_wrap(Potion *P, PN cl, PN self, PN x) { PN t; cb_collect(P); t = potion_tuple_new(P, x); cb_collect(P); return t; }
static PN cb_id(Potion *P, PN cl, PN self, PN x) { cb_collect(P); return x; }
static PN cb_second(Potion *P, PN cl, PN self, PN x, PN y) { cb_collect(P); return y; }
static PN cb_isint(Potion *P, PN cl, PN self, PN x) { cb_collect(P); return PN_IS_INT(x) ? PN_TRUE : PN_FALSE; }
static PN cb_pair(Potion *P, PN cl, PN self, PN a, PN x) {
  PN t; cb_collect(P); t = potion_tuple_new(P, a); potion_tuple_push(P, t, x); cb_collect(P); return t;
}
static PN cb_order(Potion *P, PN cl, PN self, PN a, PN x) { cb_collect(P); return potion_send(a, potion_str(P, "cmp"), x); }
static PN mk_closure(Potion *P, const char *n) {
  if (!strcmp(n, "wrap")) return (PN)potion_closure_new(P, (PN_F)cb_wrap, potion_sig(P, "x=o"), 0);
  if (!strcmp(n, "id")) return (PN)potion_closure_new(P, (PN_F)cb_id, potion_sig(P, "x=o"), 0);
  if (!strcmp(n, "second")) return (PN)potion_closure_new(P, (PN_F)cb_second, potion_sig(P, "x=o,y=o"), 0);
  if (!strcmp(n, "isint")) return (PN)potion_closure_new(P, (PN_F)cb_isint, potion_sig(P, "x=o"), 0);
  if (!strcmp(n, "pair")) return (PN)potion_closure_new(P, (PN_F)cb_pair, potion_sig(P, "a=o,x=o"), 0);
  if (!strcmp(n, "order")) return (PN)potion_closure_new(P, (PN_F)cb_order, potion_sig(P, "a=o,x=o"), 0);
  fprintf(stderr, "bad closure %s\n", n); exit(3);
}

static char *unhex(const char *h, long *n) {
  long l = strlen(h) / 2; char *s = malloc(l + 1);
  for (long i = 0; i < l; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); s[i] = x; }
  s[l] = 0; *n = l; return s;
}

static PN val(Potion *P, volatile PN *R, const char *t) {
  long n; char *s; PN v;
  switch (t[0]) {
    case 'n': return PN_NIL;
    case 't': return PN_TRUE;
    case 'f': return PN_FALSE;
    case 'i': return PN_NUM(atol(t + 1));
    case 'd': return potion_double(P, atof(t + 1));
    case 's': s = unhex(t + 1, &n); v = potion_str2(P, s, n); free(s); return v;
    case 'b': s = unhex(t + 1, &n); v = potion_byte_str2(P, s, n); free(s); return v;
    case 'r': return potion_fwd(R[atoi(t + 1)]);
    case 'c': return mk_closure(P, t + 1);
  }
  fprintf(stderr, "bad value %s\n", t); exit(3);
}

static void split(void) {
  char *p = line; ntok = 0;
  while (*p) {
    while (*p == ' ' || *p == '\n') *p++ = 0;
    if (!*p) break;
    if (ntok + 1 >= captok) { captok = captok ? captok * 2 : 64; tok = realloc(tok, sizeof(char *) * captok); }
    tok[ntok++] = p;
    while (*p && *p != ' ' && *p != '\n') p++;
  }
}

static __attribute__((noinline)) void churn(Potion *P, long n) {
  for (long i = 0; i < n; i++) { PN t = potion_tuple_new(P, PN_NUM(i)); t = potion_tuple_push(P, t, potion_byte_str(P, "garbage")); }
}

/* arguments are kept in rooted registers R[NREG-16..] while they are being built */
static __attribute__((noinline)) void step(Potion *P, volatile PN *R) {
  const char *op = tok[0];
  volatile PN *A = R + NREG - 16;
  int i;
  if (!strcmp(op, "reset")) { for (i = 0; i < NREG; i++) R[i] = PN_NIL; o_str("."); return; }
  if (!strcmp(op, "set")) { R[atoi(tok[1])] = val(P, R, tok[2]); o_str("."); return; }
  if (!strcmp(op, "mov")) { R[atoi(tok[1])] = R[atoi(tok[2])]; o_str("."); return; }
  if (!strcmp(op, "tup")) {
    A[0] = potion_tuple_empty(P);
    for (i = 2; i < ntok; i++) { A[1] = val(P, R, tok[i]); potion_tuple_push(P, A[0], A[1]); }
    R[atoi(tok[1])] = A[0]; o_str("."); A[0] = A[1] = PN_NIL; return;
  }
  if (!strcmp(op, "list")) { R[atoi(tok[1])] = potion_send(P->lobby, potion_str(P, "list"), PN_NUM(atol(tok[2]))); o_str("."); return; }
  if (!strcmp(op, "tab")) {
    A[0] = potion_table_empty(P);
    for (i = 2; i + 1 < ntok; i += 2) { A[1] = val(P, R, tok[i]); A[2] = val(P, R, tok[i + 1]); potion_table_put(P, PN_NIL, A[0], A[1], A[2]); }
    R[atoi(tok[1])] = A[0]; o_str("."); A[0] = A[1] = A[2] = PN_NIL; return;
  }
  if (!strcmp(op, "send") || !strcmp(op, "do")) {
    int d = atoi(tok[1]); A[0] = val(P, R, tok[2]);
    for (i = 4; i < ntok; i++) A[i - 3] = val(P, R, tok[i]);
    for (; i < 10; i++) A[i - 3] = PN_NIL;
    A[8] = potion_str(P, tok[3]);
    PN r;
    switch (ntok - 4) {
      case 0: r = potion_send(A[0], A[8]); break;
      case 1: r = potion_send(A[0], A[8], A[1]); break;
      case 2: r = potion_send(A[0], A[8], A[1], A[2]); break;
      case 3: r = potion_send(A[0], A[8], A[1], A[2], A[3]); break;
      default: r = potion_send(A[0], A[8], A[1], A[2], A[3], A[4]); break;
    }
    for (i = 0; i < 10; i++) A[i] = PN_NIL;
    R[d] = r;
    if (op[0] == 's') show(P, R[d], 0); else o_str(".");
    return;
  }
  /* obs bag|seq X method V...: the result is only shown, with object numbers */
  if (!strcmp(op, "obs")) {
    int bag = !strcmp(tok[1], "bag");
    A[0] = val(P, R, tok[2]);
    for (i = 4; i < ntok; i++) A[i - 3] = val(P, R, tok[i]);
    A[8] = potion_str(P, tok[3]); each_n = -1;
    if (!strcmp(tok[3], "each")) { A[1] = (PN)potion_closure_new(P, (PN_F)each_cb2, potion_sig(P, "a=o,b=o"), 0); each_n = 0; }
    A[0] = potion_send(A[0], A[8], A[1], A[2]);
    g_ids = 1; g_nseen = 0;
    { size_t p = outlen; for (i = 0; i < NREG - 16; i++) show(P, R[i], 0); outlen = p; if (out) out[p] = 0; }
    if (each_n < 0 && PN_TYPE(A[0]) != PN_TTUPLE) show(P, A[0], 0);
    else {
      long n = each_n < 0 ? (long)PN_TUPLE_LEN(A[0]) : each_n; char **ss = malloc(sizeof(char *) * (n + 1));
      for (long j = 0; j < n; j++) {
        size_t p = outlen;
        if (each_n < 0) show(P, PN_TUPLE_AT(A[0], j), 0);
        else { show(P, each_acc[j][0], 0); o_str(":"); show(P, each_acc[j][1], 0); }
        ss[j] = strdup(out + p); outlen = p; out[p] = 0;
      }
      if (bag) qsort(ss, n, sizeof(char *), cmp_s);
      for (long j = 0; j < n; j++) { if (j) o_str(","); o_str(ss[j]); free(ss[j]); }
      free(ss);
    }
    g_ids = 0; o_str("|");
    for (i = 0; i < 10; i++) A[i] = PN_NIL;
    return;
  }
  if (!strcmp(op, "sign")) { PN v = R[atoi(tok[1])]; if (PN_IS_INT(v)) R[atoi(tok[1])] = PN_NUM(PN_INT(v) < 0 ? -1 : PN_INT(v) > 0); o_str("."); return; }
  if (!strcmp(op, "cbgc")) { cb_gc = atoi(tok[1]); o_str("."); return; }
  if (!strcmp(op, "call")) {                   /* call R V V: the value applied to one argument */
    A[0] = val(P, R, tok[2]); A[1] = val(P, R, tok[3]);
    A[2] = potion_obj_get_call(P, A[0]);
    A[0] = ((PN (*)(Potion *, PN, PN, PN))PN_CLOSURE(A[2])->method)(P, A[2], A[0], A[1]);
    R[atoi(tok[1])] = A[0]; A[0] = A[1] = A[2] = PN_NIL; o_str("."); return;
  }
  if (!strcmp(op, "intern")) {                 /* which reachable strings are one object */
    g_nstr = g_nseen = 0;
    for (i = 0; i < atoi(tok[1]); i++) strings(R[i], 0);
    for (i = 0; i < g_nstr; i++) {
      int j = 0; char b[24]; while (g_str[j] != g_str[i]) j++;
      sprintf(b, "%s%d", i ? " " : "", j); o_str(b);
    }
    return;
  }
  if (!strcmp(op, "mark")) { o_str("#"); o_str(tok[1]); return; }
  if (!strcmp(op, "show")) { show(P, val(P, R, tok[1]), 0); return; }
  if (!strcmp(op, "same")) { o_str(potion_fwd(val(P, R, tok[1])) == potion_fwd(val(P, R, tok[2])) ? "1" : "0"); return; }
  if (!strcmp(op, "iso")) {
    /* a collection while printing would give the objects new places: make room for what printing allocates first */
    struct PNMemory *M = P->mem;
    if ((char *)M->birth_storeptr - (char *)M->birth_cur < 100000) potion_garbagecollect(P, 120000, 0);
#ifdef VERIF_GC_STRESS
    potion_gc_hold = 1;
#endif
    g_ids = 1; g_nseen = 0;
    int n = ntok > 1 ? atoi(tok[1]) : NREG - 16;
    for (i = 0; i < n; i++) { if (i) o_str(";"); show(P, R[i], 0); }
    g_ids = 0;
#ifdef VERIF_GC_STRESS
    potion_gc_hold = 0;
#endif
    return;
  }
  if (!strcmp(op, "eval")) {
    long n; char *s = unhex(tok[2], &n);
    PN r = potion_eval(P, potion_byte_str2(P, s, n)); free(s);
    R[atoi(tok[1])] = r; show(P, R[atoi(tok[1])], 0); return;
  }
  if (!strcmp(op, "global")) {
    long n; char *s = unhex(tok[1], &n); A[0] = val(P, R, tok[2]);
    potion_define_global(P, potion_str2(P, s, n), A[0]); free(s); A[0] = PN_NIL; o_str("."); return;
  }
  if (!strcmp(op, "gc")) {
    if (!strcmp(tok[1], "minor")) potion_garbagecollect(P, POTION_PAGESIZE, 0);
    else if (!strcmp(tok[1], "major")) potion_garbagecollect(P, POTION_PAGESIZE, 1);
    else churn(P, atol(tok[2]));
    o_str("."); return;
  }
  if (!strcmp(op, "mem")) {
    char b[128]; sprintf(b, "%ld %ld %ld", PN_INT(potion_gc_actual(P, 0, 0)), PN_INT(potion_gc_fixed(P, 0, 0)), PN_INT(potion_gc_reserved(P, 0, 0)));
    o_str(b); return;
  }
  if (!strcmp(op, "each")) {
    A[0] = val(P, R, tok[1]); each_n = 0;
    A[1] = (PN)potion_closure_new(P, (PN_F)each_cb2, potion_sig(P, "a=o,b=o"), 0);
    potion_send(A[0], potion_str(P, "each"), A[1]);
    A[0] = A[1] = PN_NIL;
    for (i = 0; i < each_n; i++) { if (i) o_str(","); show(P, each_acc[i][0], 0); o_str(":"); show(P, each_acc[i][1], 0); }
    return;
  }
  fprintf(stderr, "bad command %s\n", op); exit(3);
}

static void crash(int s) {
  char b[40]; int n = sprintf(b, "CRASH %d\n", s);
  fflush(stdout); if (write(1, b, n)) {} _exit(4);
}

static __attribute__((noinline)) void loop(Potion *P) {
  volatile PN R[NREG];
  for (int i = 0; i < NREG; i++) R[i] = PN_NIL;
  while (getline(&line, &linecap, stdin) > 0) {
    split(); if (!ntok) continue;
    outlen = 0;
    step(P, R);
    o_str("\n"); fwrite(out, 1, outlen, stdout);
  }
  fflush(stdout);
}

int main(int argc, char **argv) {
  POTION_INIT_STACK(sp);
  signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGABRT, crash); signal(SIGILL, crash); signal(SIGFPE, crash);
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  Potion *P = potion_create(sp);
  P->flags = (Potion_Flags)((argc > 1 && !strcmp(argv[1], "-B")) ? EXEC_VM : EXEC_JIT);
  loop(P);
  return 0;
}
