import os, sys, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *
KIND = {"timer": "t", "idle": "i", "prepare": "p", "check": "c", "async": "a"}
def name(k, i): return KIND[k] + str(i)
def text(o):
    k = o[0]
    if k == "start": return "start of t%d in %d every %d" % tuple(o[1:])
    return " ".join(map(str, o))
def program(r, c):
    """a program that makes the operations of the behaviour, and the output they give: [(what, text)]"""
    names = [name(k, i) for k, n in (("timer", c["NT"]), ("idle", c["NW"]), ("prepare", c["NW"]), ("check", c["NW"]), ("async", c["NA"])) for i in range(1, n + 1)]
    src, exp, acts, cbs = [], [], [], 0
    def op(o, res):
        nonlocal cbs
        k = o[0]
        if k == "sleep": return ['File("@sleep %d", "r")' % o[1]], ""
        if k == "walk": return ['Aio() walk(nil, (x):', '  who(self)', '  x print', '., "!")', '"|" print'], "".join(n + "!" for n in names) + "|"
        if k == "rep": return ["t%d repeat print" % o[1], '"|" print'], "%d|" % res[1]
        if k in ("start",): cbs += 1; h = "t%d" % o[1]; call = "start(():\n  fire(%d, self)\n., %d, %d)" % (cbs, o[2], o[3])
        elif k in ("stop", "again", "setrep"): h = "t%d" % o[1]; call = {"stop": "stop", "again": "again"}.get(k) or "set_repeat(%d)" % o[2]
        elif k == "send": h = "a%d" % o[1]; call = "send"
        else:
            h = name(k, o[1]); call = "stop"
            if o[2]: cbs += 1; call = "start(():\n  fire(%d, self)\n.)" % cbs
        if k == "send": return ["%s send print" % h, '"|" print'], "0|"
        return ["r = %s %s" % (h, call), "(r == %s) print" % h], "true" if res[0] == "ok" else "false"
    body = []
    for e in r["l"]:
        if e[0] == "main": a, b = op(e[2], e[3]); body += a; exp.append((text(e[2]), b))
        elif e[0] == "run": body += ["Aio() run(nil, %d)" % {"default": 0, "once": 1, "nowait": 2}[e[1]]] if e[1] != "default" else ["Aio() run"]; exp.append(("run %s at %d" % (e[1], e[2]), ""))
        elif e[0] == "ran": body += ['"ran" print', 'now(0)']; exp.append(("end of the run", "ran@%d" % e[1]))
        elif e[0] == "blocked": exp.append(("waiting for ever", "blocked@%d" % e[1]))
        else:
            w = e[1]; a, t = [], "<%s %d@%d>" % (name(w[0], w[1]), w[2], e[2])
            for o, res in e[3]: x, y = op(o, res); a += x; t += y
            acts.append(a); exp.append(("callback %d (%s at %d: %s)" % (len(acts), name(w[0], w[1]), e[2], ", ".join(text(o) for o, _ in e[3]) or "-"), t))
    src += ['load "aio"', "n = 0", "acts = ()", "r = nil", "now = (x):", '  File("@now", "r")', "."]
    src += ["%s = nil" % n for n in names]
    src += ["who = (h):"] + ['  if (h == %s): "%s" print.' % (n, n) for n in names] + ["."]
    src += ["fire = (l, h):", "  n = n + 1", '  "<" print', "  who(h)", '  " " print', "  l print", "  now(0)", '  ">" print', "  if (n <= %d):" % len(acts), "    f = acts(n - 1)", "    f(0)", "  .", "."]
    for n in names: src.append("%s = Aio_%s(%s)" % (n, {v: k for k, v in KIND.items()}[n[0]], "():\n  fire(0, self)\n." if n[0] == "a" else ""))
    for a in acts: src += ["acts push((x):"] + ["  " + l for s in a for l in s.split("\n")] + ["  0", ".)"]
    return "\n".join(src + body + ['"." print']) + "\n", exp
def check(ctx):
    d = ctx.build(); exe = os.path.join(d, "bin/potion"); so = os.path.join(ctx.work, "clock.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "drv", "clock.c"), "-ldl"], check=True)
    confs = [(dict(NT=3, NW=0, NA=0, Depth=8, MainOps=6, Runs=3), 300, 12000), (dict(NT=2, NW=1, NA=0, Depth=10, MainOps=8, Runs=4), 300, 12000), (dict(NT=1, NW=2, NA=1, Depth=10, MainOps=7, Runs=3), 300, 12000),
             (dict(NT=3, NW=2, NA=2, Depth=24, MainOps=14, Runs=6), 200, 8000), (dict(NT=0, NW=0, NA=3, Depth=12, MainOps=6, Runs=4), 60, 500)]
    def sim(c, q, t): return c, tlc_sim(ctx, "Loop", c, num=ctx.n(q, t), depth=400, invariants=["Emit", "InOrder", "Unique"], properties=["NotEarly", "Ends", "Waits"], procs=ctx.n(1, 2), timeout=850)
    with ThreadPoolExecutor(5) as ex:
        recs = [(c, r) for f in [ex.submit(sim, *a) for a in confs] for c, r in [f.result()][0:1] for r in r]
    ctx.rng.shuffle(recs); recs = recs[:ctx.n(1500, 90000)]
    ctx.cov["schedules"] = len(recs); ctx.cov["callbacks"] = sum(e[0] == "call" for _, r in recs for e in r["l"]); ctx.sample(str(recs[0][1]["l"])[:500])
    root = os.path.join(ctx.work, "loop"); rep = 0
    os.makedirs(os.path.join(root, "lib")); os.symlink(os.path.join(d, "lib/potion"), os.path.join(root, "lib/potion"))
    ps = [program(r, c) for c, r in recs]
    for k, (src, exp) in enumerate(ps):
        with open(os.path.join(root, "%d.pn" % k), "w") as f: f.write(src)
    for m, env, part in (("-X", None, 1), ("-B", None, 1), ("-X", "POTION_GC_EVERY=7", 3), ("-B", "POTION_GC_EVERY=5", 3), ("-X", "POTION_GC_EVERY=1", 6)):
        ks = [k for k in range(len(ps)) if (k + ctx.seed) % part == 0]
        res = run_jobs(ctx, [(20000, env, ["/bin/sh", "-c", "cd %s && UV_USE_IO_URING=0 LD_PRELOAD=%s exec %s %s %d.pn 2>/dev/null" % (root, so, exe, m, k)]) for k in ks])
        for k, (st, out) in zip(ks, res):
            if st == 998: continue
            src, exp = ps[k]; got = out.decode("latin-1"); p = 0; bad = None
            for what, e in exp:
                if got[p:p + len(e)] != e: bad = "%s gives %r, the specification says %r" % (what, got[p:p + len(e) + 30], e); break
                p += len(e)
            if not bad and exp[-1][0] != "waiting for ever" and (st or got[p:] != "."): bad = "exit %d, rest of the output %r" % (st, got[p:p + 100])
            if bad:
                rep += 1
                if rep < 8: ctx.violation("%s%s %s" % (m, " " + env if env else "", bad), "%s %s\n%s\n%s\nexpected %s\noutput %s" % (m, env, src, bad, "".join(e for _, e in exp), got[:3000]))
            else: ctx.add("traces_validated_against_impl", 1)
    shutil.rmtree(root, ignore_errors=True)
main(check, "P18")
