import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from files import *

T = lambda s: [ord(c) for c in s]
LONG = T("k" * 700 + "\n" + "m" * 1500 + "\n" + "n" * 9)
def check(ctx):
    base = dict(Long=[], Stdin=[], Depth=3, MaxH=2, Offs={0, -1, 1, 3})
    def bfs(kinds, names, depth, strs, reads, offs=(0, -1, 2), maxh=2):
        return tlc_bfs(ctx, "File", dict(base, Mode="bfs", Kinds=set(kinds), Names=set(names), Depth=depth, MaxH=maxh, Strs=("tla", "{" + ", ".join(tla(T(s)) for s in strs) + "}"), Reads=set(reads), Offs=set(offs)),
            invariants=["Safe", "Emit"], properties=["Frame"], workers=2, heap="4g", timeout=850).records
    def sim(kinds, depth, num, stdin=(), maxh=4):
        return tlc_sim(ctx, "File", dict(base, Mode="sim", Kinds=set(kinds), Names={"a", "b"}, Depth=depth, MaxH=maxh, Long=LONG, Stdin=list(stdin), Reads={1, 2, 3, 7, 2000}, Offs={0, -1, 1, 3, -4, 9},
            Strs=("tla", "{" + ", ".join(tla(T(s)) for s in ("", "x", "ab", "p\nq", "\n", "uvwxyz")) + "}")), num=num, depth=depth + 1, invariants=["Safe", "Emit"], procs=2, timeout=850)
    stdin = T("first\n\nthird " + "z" * 1100 + "\nlast")
    with ThreadPoolExecutor(8) as ex:
        bs = [ex.submit(bfs, *a) for a in (("F", "a", ctx.n(3, 4), ("xy",), (1, 3)), ("B", "a", ctx.n(3, 4), ("xy",), (1, 3), (0, -1)))]
        ss = [ex.submit(sim, k, d, ctx.n(num, num * 12)) for k, d, num in (("F", 12, 60), ("B", 14, 120), ("FB", 18, 160), ("FB", 30, 60))]
        si = ex.submit(sim, "F", 9, ctx.n(20, 200), stdin)
        exh = [r for f in bs for r in f.result()]; rnd = [r for f in ss for r in f.result()]; ins = si.result()
    ctx.cov["exhaustive"] = len(exh); ctx.cov["random"] = len(rnd); ctx.cov["with_input"] = len(ins)
    ctx.sample({"history": str(rnd[0]["h"])[:600]})
    check_histories(ctx, exh, 40)
    check_histories(ctx, rnd, 20, gc=(1,) if ctx.quick else (1, 7))
    check_histories(ctx, ins, 1, stdin=stdin)
main(check, "P13")
