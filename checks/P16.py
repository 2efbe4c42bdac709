import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from pegs import *

A, B_, C_ = 97, 98, 99
LEAF = {"a": '<<"lit", <<97>>>>', "b": '<<"lit", <<98>>>>', "ab": '<<"lit", <<97, 98>>>>', "A": '<<"cls", {97, 98}, FALSE>>', "N": '<<"cls", {97}, TRUE>>', ".": '<<"dot">>', "aa": '<<"lit", <<97, 97>>>>'}
def vectors(*vs): return ("tla", "<<" + ", ".join("<<" + ", ".join(LEAF[x] for x in v.split()) + ">>" for v in vs) + ">>")
INTERESTING = {0, 9, 10, 13, 27, 32, 34, 37, 39, 45, 48, 55, 57, 63, 65, 91, 92, 93, 94, 97, 102, 110, 120, 127, 128, 195, 255}
def strings(chars, n):
    res = [[]]; last = [[]]
    for _ in range(n): last = [s + [c] for s in last for c in chars]; res += last
    return res
def check(ctx):
    inputs = strings([A, B_], 4)
    base = dict(NR=1, Deep=0, InLen=0, Chars=set())
    def bfs(v): return tlc_bfs(ctx, "Peg", dict(base, Mode="bfs", MaxOps=ctx.n(2, 3), Leaves=vectors(*v), Inputs=inputs), invariants=["EmitB"], workers=2, heap="4g", timeout=850).records
    def sim(nr, deep, inlen): return tlc_sim(ctx, "Peg", dict(Mode="sim", MaxOps=0, NR=nr, Deep=deep, InLen=inlen, Chars={A, B_, C_}, Inputs=[],
        Leaves=("tla", "{" + ", ".join(LEAF[x] for x in ("a", "b", "ab", "A", "N", ".")) + "}")), num=ctx.n(40, 900), depth=4, invariants=["EmitS"], procs=4, timeout=850)
    with ThreadPoolExecutor(8) as ex:
        bs = [ex.submit(bfs, v) for v in ((["a b A N"], ["ab a . b"], ["A a aa b"]) if ctx.quick else (["a b A N"], ["ab a . b"], ["A a aa b"], ["b N a ab"], [". a ab a"]))]
        ss = [ex.submit(sim, *a) for a in ((2, 2, 9), (4, 3, 13), (6, 2, 9))]
        nt = [ex.submit(tlc_sim, ctx, "Notation", dict(Mode="", MaxItems=m, Interesting=INTERESTING), num=ctx.n(40, 1500), depth=m + 2, invariants=["Emit"], procs=2, timeout=850) for m in (2, 6)]
        exprs = [r for f in bs for r in f.result()]; rnd = [r for f in ss for r in f.result()]
    ctx.cov["expressions"] = len(exprs); ctx.cov["random_grammars"] = len(rnd)
    grams = []
    def into(recs, per, inputs=None):
        for lo in range(0, len(recs), per):
            gr = Gram()
            for k, r in enumerate(recs[lo:lo + per]):
                start = gr.add(r["g"], k)
                for i, j, ps in r["r"]:
                    s = inputs[j - 1] if inputs else r["s"][j - 1]
                    gr.job(start + i - 1, len(ps) if inputs else 3, s, expected(ps), ctx.rng.choice((1, 1, 3, 500)))
            grams.append(gr)
    into(exprs, 120, inputs); into(rnd, 25)
    nr = [r for f in nt for r in f.result()]; ctx.cov["notations"] = len(nr)
    for lo in range(0, len(nr), 400):
        gr = Gram(); notations(gr, nr[lo:lo + 400], ctx.rng); grams.append(gr)
    ctx.sample({"grammar": grams[-1].rules[-1], "job": str(grams[-1].jobs[-1][2:4])})
    with ThreadPoolExecutor(NCPU) as ex:
        bad = [b for bs in ex.map(lambda k: run_gram(ctx, grams[k], "gram%d" % k), range(len(grams))) for b in bs]
    for _, w in bad[:6]: ctx.violation(w.split("\n")[0], w)
main(check, "P16")
