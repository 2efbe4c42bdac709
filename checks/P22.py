import os, sys, shutil, socket
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *
from streams import Plan
def free_ports(n):
    ss = []
    for _ in range(n):
        s = socket.socket(); s.bind(("127.0.0.1", 0)); ss.append(s)
    ps = [s.getsockname()[1] for s in ss]
    for s in ss: s.close()
    return ps
SMALL = [dict(con=[dict(c=dict(echo=False, first=[["write", 2], ["write", 1], ["shut"], ["write", 1]], th=[dict(at=1, ops=[["stop"]])], eof=[["write", 1], ["shut"]]), s=dict(echo=True, first=[], th=[], eof=[["shut"]]))], fails=1, socks=[]),
         dict(con=[dict(c=dict(echo=False, first=[["write", 1], ["rewrite", 2]], th=[dict(at=2, ops=[["rewrite", 1], ["shut"]])], eof=[["shut"]]), s=dict(echo=False, first=[["write", 2]], th=[dict(at=1, ops=[["stop"]])], eof=[["shut"]]))], fails=0, socks=[]),
         dict(con=[dict(c=dict(echo=False, first=[["write", 1], ["shut"]], th=[], eof=[]), s=dict(echo=False, first=[["write", 1]], th=[], eof=[["shut"]])), dict(c=dict(echo=False, first=[["write", 1], ["shut"]], th=[], eof=[]), s=dict(echo=True, first=[], th=[], eof=[["shut"]]))], fails=0, socks=[]),
         dict(con=[], fails=0, socks=[dict(first=[[2, 5], [1, 65507], [2, 65508], [2, 0]], on=[[[1, 0], [0, 0], [2, 7]], []]), dict(first=[[1, 3]], on=[[], [[2, 1], [1, 65508]], [[1, 4]]])])]
def check(ctx):
    d = ctx.build(); exe = os.path.join(d, "bin/potion")
    confs = [(dict(NC=1, Lens={0, 1, 5, 100, 3000}, Fails=0, NS=0, Grams=set()), 60, 2000), (dict(NC=3, Lens={0, 1, 40, 1000, 70000}, Fails=2, NS=0, Grams=set()), 60, 2000), (dict(NC=1, Lens={1, 5, 100}, Fails=0, NS=4, Grams={0, 1, 5, 100, 1400}), 40, 1500), (dict(NC=2, Lens={1, 300000, 65536, 65537}, Fails=0, NS=0, Grams=set()), 40, 1000)]
    def sim(c, q, t): return tlc_sim(ctx, "Stream", dict(c, Mode="plan", Plans=set(), File=""), num=ctx.n(q, t), depth=300, invariants=["Emit", "Sane"], procs=2, timeout=850)
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(sim, *a) for a in confs]
        fb = ex.submit(tlc_bfs, ctx, "Stream", dict(NC=2, Lens=set(), Fails=0, NS=0, Grams=set(), Mode="all", Plans=("tla", "{" + ", ".join(tla(x) for x in SMALL) + "}"), File=""), invariants=["Sane", "Done"], timeout=850)
        recs = [r for f in fs for r in f.result()]; fb.result()
    seen = set(); recs = [r for r in recs if not (json.dumps(r) in seen or seen.add(json.dumps(r)))]
    ctx.cov["plans"] = len(recs); ctx.sample(json.dumps(recs[0])[:500])
    root = os.path.join(ctx.work, "streams"); os.makedirs(os.path.join(root, "lib")); os.symlink(os.path.join(d, "lib/potion"), os.path.join(root, "lib/potion"))
    confs = [("pipe", "-B", None, 1), ("pipe", "-X", None, 1), ("tcp", "-B", None, 2), ("tcp", "-X", None, 2), ("pipe", "-X", "POTION_GC_EVERY=7", 3), ("pipe", "-B", "POTION_GC_EVERY=31", 3), ("tcp", "-X", "POTION_GC_EVERY=3", 6)]
    runs = []                                # [configuration, plan, record]
    for n, (tr, m, env, part) in enumerate(confs):
        for k, r in enumerate(recs):
            if (k + n) % part == 0: runs.append([n, k, r])
    ports = iter(free_ports(400)); pool = []
    def port():
        nonlocal ports
        p = next(ports, None)
        if p is None: ports = iter(free_ports(400)); p = next(ports)
        return p
    def go(rs, timeout, procs):
        jobs, ps = [], []
        for n, k, r in rs:
            tr, m, env, _ = confs[n]; b = "r%d" % len(ps)
            P = Plan(r, ctx.seed * 1000 + k, tr, b + ".sock", [port() if tr == "tcp" else 0] + [port() for _ in r["socks"]])
            with open(os.path.join(root, b + ".pn"), "w") as f: f.write(P.src)
            jobs.append((timeout, env, ["/bin/sh", "-c", "cd %s && rm -f %s.sock && exec %s %s %s.pn > %s.out 2>&1" % (root, b, exe, m, b, b)])); ps.append((P, b))
        res = run_jobs(ctx, jobs, procs=procs); out = []
        for (P, b), (st, _) in zip(ps, res):
            if st == 998: out.append((P, "", [], "not run")); continue
            with open(os.path.join(root, b + ".out"), "rb") as f: o = f.read().decode("latin-1")
            try: log, err = P.events(o)
            except (KeyError, IndexError, ValueError, StopIteration, TypeError) as e: log, err = [], "events that cannot be: %s, %r" % (e, o[-200:])
            if err is None and st: err = "exit %d" % st
            out.append((P, o, log, err))
            os.unlink(os.path.join(root, b + ".out"))
        return out
    traces, bad, rep = [], [], 0
    def violation(run, P, o, log, what):
        nonlocal rep
        rep += 1
        tr, m, env, _ = confs[run[0]]
        if rep < 8: ctx.violation("%s over a %s%s: %s" % (m, tr, " " + env if env else "", what), "%s %s %s\nplan %s\n%s\nevents %s\nprogram:\n%s\noutput %s" % (tr, m, env, json.dumps(run[2]), what, log, P.src, o[:3000]))
    batch = 600
    for i in range(0, len(runs), batch):
        part = runs[i:i + batch]
        for run, (P, o, log, err) in zip(part, go(part, 20000, NCPU)):
            if err == "not run" or err and rep >= 3: continue
            if err:
                (P, o, log, err), = go([run], 30000, 1)            # a port taken by another program, or a machine too slow
                if err == "not run": continue
                if err: violation(run, P, o, log, err); continue
            traces.append(dict(id=len(traces), plan=run[2], log=log)); bad.append((run, P.src, log))
    for i in range(0, len(traces), 4000):
        f = os.path.join(root, "traces.json")
        with open(f, "w") as g: g.write("".join(json.dumps(t) + "\n" for t in traces[i:i + 4000]))
        r = tlc_bfs(ctx, "Stream", dict(NC=3, Lens=set(), Fails=0, NS=0, Grams=set(), Mode="trace", Plans=set(), File=f), timeout=850, workers=1)
        ctx.add("traces_validated_against_impl", len(traces[i:i + 4000]) - len(r.records))
        for x in r.records:
            run, src, log = bad[x["t"]]; k = x["pos"] - 1
            class Q: pass
            q = Q(); q.src = src
            what = {"unfinished": "the run ended with something left to happen", "event": "event %d is not possible: %s", "results": "the operations of event %d give other results: %s"}[x["what"]]
            violation(run, q, "", log, (what % (k + 1, log[k]) if "%" in what else what) + " after %s" % log[max(0, k - 6):k])
    ctx.cov["events"] = sum(len(t["log"]) for t in traces)
    shutil.rmtree(root, ignore_errors=True)
main(check, "P22")
