import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from conts import *

HERE, GO, HERE2, GO2 = ["here", 1], ["go", 1], ["here", 2], ["go", 2]
OUT, INC, CELL, CELL4 = ["out", 9], ["inc", "a", 1], ["cell", 2], ["cell", 4]
F2 = [[HERE, INC, OUT], [INC, GO, OUT], [HERE, ["call", "b", 3, ["v", "a"]], OUT], [["while", "b", 2, [OUT, HERE]], GO]]
F3 = [["out", 7], HERE2, CELL, GO]
def histories(ctx):
    """every main program of L statements of an alphabet, with every second function"""
    L = ctx.n(3, 4)
    alpha = [HERE, GO, INC, ["call", "b", 2, ["v", "a"]], ["sum", "a", 2, ["v", "a"], 3, ["k", 1]],
             ["times", [0, 1], [HERE, OUT]], ["each", [5, 8], [["inc", "a", 1], GO, OUT]], HERE2, GO2, CELL4]
    ps = []
    for i, t in enumerate(itertools.product(alpha, repeat=L)):
        for j, f in enumerate(F2):
            s = str(t) + str(f)
            if "here" in s and "go" in s and (ctx.n(i, 0) + j) % 4 == 0: ps.append([list(t) + [OUT], f, F3])
    return ps[:ctx.n(10**6, 25000)]

def embed(ctx, progs):
    """the same programs under a program that embeds potion and keeps its own variables next to the saved stack"""
    d = ctx.build(); exe = os.path.join(d, "embed"); src = os.path.join(VERIF, "drv", "embed.c")
    B.run(["clang", "-O0", "-fno-omit-frame-pointer"] + B.cflags(d) + ["-o", exe, src, "-L" + d + "/lib", "-Wl,-rpath=" + d + "/lib", "-l:libpotion.so"], d)
    jobs = [(10000, "POTION_GC_EVERY=%d" % g if g else None, [exe, m, p.path]) for p in progs for g in (0, 2) for m in MODES]
    ok = 0
    for (t, e, a), (st, out) in zip(jobs, run_jobs(ctx, jobs)):
        p = progs[ok // 4]; ok += 1
        if st == 998: continue
        if st == 0 and out == p.exp: ctx.add("traces_validated_against_impl", 1); continue
        if len(ctx.violations) < 8: ctx.violation("embedded, %s %s: exit %d, %r" % (a[1], e or "", st, out[-80:]), "%s\n--- program\n%s\n--- expected\n%s\n--- output\n%s\n" % (
            " ".join(a[:2]), p.src.decode(), p.exp.decode(), out.decode("utf-8", "replace")[:20000]))

def check(ctx):
    FU, FH = 5, 3
    hs = histories(ctx)
    k = 6 if ctx.quick else 8
    parts = [hs[i::k] for i in range(k)]
    def bfs(h): return tlc_bfs(ctx, "Cont", dict(Mode="bfs", NF=3, Fuel=FH, Steps=400, Budget=0, Progs=h), invariants=["Resumed", "Emit"], properties=["Frozen"], workers=1, heap="3g", timeout=800).records
    def sim(i): return tlc_sim(ctx, "Cont", dict(Mode="sim", NF=3 + i, Fuel=FU, Steps=300, Budget=2, Progs=[]), num=ctx.n(15, 400), depth=320, invariants=["Resumed", "Emit"], properties=["Frozen"], timeout=800)
    with ThreadPoolExecutor(k + 2) as ex:
        a = [ex.submit(bfs, h) for h in parts]; b = [ex.submit(sim, i) for i in range(2)]
        hist = [r for f in a for r in f.result()]; rand = [r for f in b for r in f.result()]
    ps = [program(r, ctx.rng, FH, i % 2) for i, r in enumerate(hist)]
    ctx.cov["histories"] = len(ps); ctx.cov["histories_with_jumps"] = sum(r["jumps"] > 0 for r in hist)
    ctx.sample({"program": ps[-1].src.decode(), "output": ps[-1].exp.decode()})
    check_programs(ctx, ps, gc=(5,) if ctx.quick else (1, 5), what="continuations")
    qs = [program(r, ctx.rng, FU, i % 2) for i, r in enumerate(rand)]
    ctx.cov["random_programs"] = len(qs); ctx.cov["random_with_jumps"] = sum(r["jumps"] > 0 for r in rand)
    check_programs(ctx, qs, gc=(1, 4), what="random program with continuations")
    embed(ctx, ps[::ctx.n(6, 3)] + qs[::2])
main(check, "P12")
