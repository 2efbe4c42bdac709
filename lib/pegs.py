"""Grammars of Peg.tla as greg grammars, compiled and run."""
import os, subprocess
from vlib import *
PRE = r'''%{
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static const unsigned char *src; static int srclen, srcpos, chunk;
#define YY_STACK_SIZE 2
#define YY_BUFFER_START_SIZE 4
#define YY_INPUT(b, r, max) { int _i, _n = chunk < (max) ? chunk : (max); if (_n > srclen - srcpos) _n = srclen - srcpos; \
  for (_i = 0; _i < _n; _i++) (b)[_i] = src[srcpos + _i]; srcpos += _n; r = _n; }
static char *o; static long on, oc;
static void put(const char *s, int l) { while (on + l + 1 > oc) o = realloc(o, oc = oc * 2 + 256); memcpy(o + on, s, l); on += l; }
static void lg(int k) { char b[32]; put(b, sprintf(b, "(%d)", k)); }
static void tx(int k, const char *t) { char b[32]; put(b, sprintf(b, "(%d", k)); for (; *t; t++) put(b, sprintf(b, " %d", *(unsigned char *)t)); put(")", 1); }
static void vl(int v) { char b[32]; put(b, sprintf(b, "(100 %d)", v)); }
%}
'''
MAIN = r'''
%%%%
static yyrule starts[] = { %s };
int main(void) {
  static char line[1 << 20]; static unsigned char s[1 << 20]; int id, many, off;
  while (fgets(line, sizeof line, stdin)) {
    if (sscanf(line, "%%d %%d %%d %%n", &id, &many, &chunk, &off) < 3) return 2;
    srclen = srcpos = on = 0;
    for (char *p = line + off; *p && *p != '\n'; p += 2) { unsigned v; sscanf(p, "%%2x", &v); s[srclen++] = v; }
    src = s;
    if (!many) for (int b = 0; b < 256; b++) {
      s[0] = b; srclen = 1; srcpos = 0;
      GREG *G = yyparse_new(NULL); put(yyparse_from(G, starts[id]) ? (G->offset == 1 ? "1" : "?") : "0", 1); yyparse_free(G);
    }
    GREG *G = yyparse_new(NULL);
    for (int i = 0, used = 0; i < many; i++) {
      int ok, b = on; put("", 0); char t[64];
      ok = yyparse_from(G, starts[id]);
      put(t, sprintf(t, ok ? "=%%d;" : "=no;", ok ? G->offset - used : 0));
      if (!ok || G->offset == used) break;
      used = G->offset;
    }
    yyparse_free(G);
    put("", 1); puts(o); fflush(stdout);
  }
  return 0;
}
'''
def lit(bs): return "".join(chr(b) for b in bs)
def text(e, pre, i):
    k = e[0]
    if k == "lit": return "'%s'" % lit(e[1])
    if k == "cls": return "[%s%s]" % ("^" if e[2] else "", lit(sorted(e[1])))
    if k == "dot": return "."
    if k == "seq": return "%s %s" % tuple(grp(x, pre, i, x[0] == "alt") for x in e[1:3])
    if k == "alt": return "%s | %s" % (text(e[1], pre, i), text(e[2], pre, i))
    if k in ("opt", "star", "plus"): return grp(e[1], pre, i) + {"opt": "?", "star": "*", "plus": "+"}[k]
    if k in ("and", "not"): return {"and": "&", "not": "!"}[k] + grp(e[1], pre, i)
    if k == "act": return "{ lg(%d); }" % e[1]
    if k == "cap": return "(< %s > { tx(%d, yytext); })" % (grp(e[1], pre, i, e[1][0] == "alt"), e[2])
    if k == "pred": return "(< %s > &{ yyleng >= %d })" % (grp(e[1], pre, i, e[1][0] == "alt"), e[2])
    if k == "err": return "(%s ~ { lg(%d); })" % (grp(e[1], pre, i), e[2])
    if k == "rule": return "%s%d" % (pre, e[1])
    if k == "bind": return "%s:%s%d" % (e[1], pre, e[2])
    if k == "val": return "{ $$ = (%s) %% 9973; vl($$); }" % " + ".join([str(e[1])] + ["%d * %s" % (c, x) for x, c in e[2]])
    raise Exception(k)
ATOM = {"lit", "cls", "dot", "rule", "cap", "pred", "err"}
def grp(e, pre, i, need=None):
    t = text(e, pre, i)
    if need is None: need = e[0] not in ATOM
    return "(%s)" % t if need else t
def logtext(l): return "".join("(%s)" % " ".join(map(str, x)) for x in l)
def expected(ps): return "".join(logtext(l) + ("=%d;" % p if ok else "=no;") for ok, p, l in ps)

class Gram:
    """several grammars in one parser: rules with distinct names"""
    def __init__(self): self.rules, self.starts, self.jobs = [], [], []
    def add(self, g, k):
        pre = "g%d_" % k
        base = len(self.starts)
        for i, e in enumerate(g):
            self.rules.append("%s%d = %s" % (pre, i + 1, text(e, pre, i + 1)))
            self.starts.append("yy_%s%d" % (pre, i + 1))
        return base
    def job(self, start, many, inp, exp, chunk): self.jobs.append((start, many, bytes(inp), exp, chunk))
    def source(self): return PRE + "\n".join(self.rules) + "\n" + MAIN % ", ".join(self.starts)

def notations(gr, recs, rng):
    """one rule for each class or literal; classes are tried on every byte, literals on themselves and near misses"""
    seen = set()
    for r in recs:
        key = (r["k"], tuple(r["t"]))
        if key in seen: continue
        seen.add(key); k = len(gr.starts); body = bytes(r["t"]).decode("latin-1")
        def rule(i, t): gr.rules.append("g%d_1 = %s" % (i, t)); gr.starts.append("yy_g%d_1" % i)
        if r["k"][0] == "l":
            if 0 in r["c"] and len(r["c"]) > 1: continue          # NUL only alone
            rule(k, r["k"][3] + body + r["k"][3]); c = r["c"]
            for s in [c, c + [120], c[:-1]] + [c[:i] + [(c[i] + rng.choice((1, 128, 255))) % 256] + c[i + 1:] for i in range(len(c))]:
                ok = s[:len(c)] == c
                gr.job(k, 1, s, "=%d;" % len(c) if ok else "=no;", rng.choice((1, 500)))
        else:
            for f in ("", "-"):
                for d in ("",):   # a dash at the end after a single character would start a range
                    if (f or d) and rng.random() < 0.7: continue
                    k = len(gr.starts); rule(k, "[%s%s%s%s]" % ("^" if r["k"] == "ncls" else "", f, body, d))
                    cs = set(r["c"]) | ({45} if f or d else set())
                    gr.job(k, 0, b"", "".join("01"[(b in cs) != (r["k"] == "ncls")] for b in range(256)), 1)

def run_gram(ctx, gr, name, cc=("clang", "-O0", "-w", "-fsanitize=address")):
    d = ctx.build(); w = os.path.join(ctx.work, name); os.makedirs(w)
    y, c, exe = (os.path.join(w, x) for x in ("g.y", "g.c", "g"))
    with open(y, "w", encoding="latin-1") as f: f.write(gr.source())
    r = subprocess.run([os.path.join(d, "bin/greg"), "-o", c, y], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if r.returncode: return [(None, "greg failed on\n%s\n%s" % (gr.source()[-3000:], r.stdout.decode("utf-8", "replace")[-2000:]))]
    r = subprocess.run(list(cc) + ["-fno-strict-aliasing", "-o", exe, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w, timeout=300)
    if r.returncode: return [(None, "the generated parser does not compile: %s" % r.stdout.decode("utf-8", "replace")[:1500])]
    text = "".join("%d %d %d %s\n" % (s, m, ch, i.hex()) for s, m, i, _, ch in gr.jobs)
    try: r = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")); out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e: out, rc = e.stdout or b"", "timeout"
    lines, bad = out.decode("latin-1").split("\n"), []
    for k, (s, m, i, exp, ch) in enumerate(gr.jobs):
        got = lines[k] if k < len(lines) - 1 else "<no answer, exit %s: %s>" % (rc, " ".join(l.strip() for l in lines if "ERROR" in l or " in yy" in l)[:400])
        if got != exp:
            pre = gr.starts[s][3:].rsplit("_", 1)[0]
            bad.append((k, "start %s, input %r: %s, the specification says %s\ngrammar:\n%s" % (gr.starts[s][3:], i, got[:300], exp[:300],
                "\n".join(r for r in gr.rules if r.startswith(pre + "_")))))
            if got.startswith("<no"): break
    ctx.add("traces_validated_against_impl", len(gr.jobs) - len(bad))
    return bad
