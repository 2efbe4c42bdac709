import os, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *
import subprocess

NAMES = [("", "foo", "other"), ("", "bar", "other"), ("sub/", "foo", "other"), ("", "foo.pn", "code"), ("", "bar.pnb", "code"), ("", "foo.so", "so"), ("", "bar.x", "other")]
SO = r'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
void INIT(void *P) { Dl_info i; char n[4096], s[32]; FILE *f; if (!dladdr((void *)INIT, &i)) return;
  snprintf(n, sizeof n, "%s.id", i.dli_fname); f = fopen(n, "r"); if (f && fgets(s, 32, f)) { printf("<%s>", s); fflush(stdout); } if (f) fclose(f); }
'''
def source(c):
    n, k, push, load = c
    return '"<%d>" print\n' % n + ('LOADER_PATH push("%s")\n' % push if push else "") + ('load "%s"\n' % (load[0] + load[1]) if load else "") + '"<end %d>" print\n%d\n' % (n, n)
def shown(l): return {"missing": lambda: "** can't find %s\n" % l[1], "unknown": lambda: "@u", "ran": lambda: "<%d>" % l[1], "end": lambda: "<end %d>" % l[1]}[l[0]]()
def check(ctx):
    d = ctx.build(); exe = os.path.join(d, "bin/potion")
    sims = lambda names, dirs, num, k, procs: tlc_sim(ctx, "Load", dict(Mode="", Dirs=set(dirs), Names=("tla", "{" + ", ".join('<<"%s", "%s", "%s">>' % n for n in names) + "}"), NLoads=k, Extra=0),
        num=num, depth=k + 3, invariants=["Emit", "First"], procs=procs, timeout=850)
    with ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(sims, NAMES, ["lib/potion", ".", "d1", "d.2"], ctx.n(25, 500), 8, 3), ex.submit(sims, NAMES[:2] + NAMES[3:4], [".", "d1"], ctx.n(25, 500), 6, 3), ex.submit(sims, NAMES[2:3] + NAMES[:1], ["d.2/e", "."], ctx.n(15, 300), 6, 2), ex.submit(sims, [("s/u/", "foo", "other"), ("s/", "bar", "other"), NAMES[1]], ["lib/potion", "d1"], ctx.n(15, 300), 6, 2)]
        recs = [r for f in fs for r in f.result()]
    ctx.cov["arrangements"] = len(recs); ctx.sample(str(recs[0])[:500])
    root = os.path.join(ctx.work, "load"); os.makedirs(root)
    sos = {}
    for b in ("foo", "bar"):
        sos[b] = os.path.join(root, b + ".so.bin")
        with open(os.path.join(root, "so.c"), "w") as f: f.write(SO)
        subprocess.run(["clang", "-shared", "-fPIC", "-w", "-DINIT=Potion_Init_" + b, "-o", sos[b], os.path.join(root, "so.c"), "-ldl"], check=True)
    codes = {}
    for r in recs:
        for w, c in r["f"].items() if isinstance(r["f"], dict) else []:
            if w.endswith(".pnb"): codes.setdefault(source(c), None)
    for i, s in enumerate(codes):
        codes[s] = os.path.join(root, "c%d.pn" % i)
        with open(codes[s], "w") as f: f.write(s)
    run_jobs(ctx, [(10000, None, [exe, "-c", p]) for p in codes.values()])
    def setup(w, r):
        os.makedirs(w)
        for p, c in (r["f"].items() if isinstance(r["f"], dict) else []):
            q = os.path.join(w, p); os.makedirs(os.path.dirname(q), exist_ok=True)
            if c[1] == "so":
                shutil.copy(sos[os.path.basename(p).split(".")[0]], q)
                with open(q + ".id", "w") as f: f.write(str(c[0]))
            elif p.endswith(".pnb"): shutil.copy(codes[source(c)] + "b", q)
            else:
                with open(q, "w") as f: f.write(source(c))
    option = lambda r: r["l"][0][0] == "push"
    def program(r):
        src, exp, err = [], [], []
        for i, l in enumerate(r["l"]):
            if option(r) and i == 0: pass          # given on the command line
            elif l[0] == "push": src.append('LOADER_PATH push("%s")' % l[1])
            elif l[0] == "set": src.append('LOADER_PATH put(%d, "%s")' % (l[1], l[2]))
            elif l[0] == "pop": src.append("LOADER_PATH pop")
            else:
                src += ['r = load "%s"' % l[1], '"=" print'] + (["r print"] if l[3][0] != "any" else ["(r == nil) print"]) + ['"|" print']
                exp.append(("load %s" % l[1], "".join(shown(x) for x in l[2] if x[0] in ("ran", "end")) + "=" + {"nil": lambda: "nil", "num": lambda: str(l[3][1]), "any": lambda: "false"}[l[3][0]]()))
                err.extend(shown(x) for x in l[2] if x[0] not in ("ran", "end"))
        return "\n".join(src) + "\n", exp, "".join(err)
    import re
    rep = 0
    for m, env in (("-X", None), ("-B", None), ("-X", "POTION_GC_EVERY=1")):
        dirs = []
        for k, r in enumerate(recs):
            w = os.path.join(root, "%s%s-%d" % (m, "g" if env else "", k)); setup(w, r); dirs.append(w)
            with open(os.path.join(w, "main.txt"), "w") as f: f.write(program(r)[0])
        res = run_jobs(ctx, [(10000, env, ["/bin/sh", "-c", "cd %s && exec %s %s %smain.txt 2>err" % (w, exe, m, "-L %s " % r["l"][0][1] if option(r) else "")]) for w, r in zip(dirs, recs)])
        for r, w, (st, out) in zip(recs, dirs, res):
            if st == 998: continue
            src, exp, err = program(r); got = out.decode("latin-1").split("|"); bad = None
            errs = re.sub(r"\*\* (unrecognized file extension|no file extension)[^\n]*\n", "@u", open(os.path.join(w, "err"), encoding="latin-1").read())
            for j, (t, e) in enumerate(exp):
                g = got[j] if j < len(got) - 1 else "<end, exit %d>" % st
                if g != e: bad = "%s: %r, the specification says %r" % (t, g[:300], e[:300]); break
            if not bad and errs != err: bad = "messages %r, the specification says %r" % (errs[:400], err[:400])
            if not bad and st: bad = "exit %d" % st
            if bad:
                rep += 1
                if rep < 8: ctx.violation("%s%s %s" % (m, " " + env if env else "", bad), "files: %s\n%s\n%s\noutput %s" % (r["f"], src, bad, out[:3000]))
            else: ctx.add("traces_validated_against_impl", 1)
            shutil.rmtree(w, ignore_errors=True)
main(check, "P17")
