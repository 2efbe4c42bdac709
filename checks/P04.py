import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from strs import *
from prog import *

def tt(*ss): return ("tla", "{%s}" % ", ".join(tla([ord(c) for c in s]) for s in ss))
BUILD = {"lit", "num", "+", "slice", "call", "string", "bytes", "append", "tup", "push", "pop", "join", "mov", "clone"}

def check(ctx):
    cases = []
    for ops, ts, nums, depth, gcs in (
            ({"lit", "+", "call"}, tt("a", "ab"), {0}, ctx.n(4, 5), set()),
            ({"lit", "num", "string", "bytes", "+"}, tt("1", "2"), {1, 12}, ctx.n(4, 5), set()),
            ({"lit", "num", "tup", "string", "join", "pop"}, tt("1", "(1)"), {1}, 4, set()),
            ({"lit", "+"}, tt("a", "b"), {0}, ctx.n(5, 6), {"minor", "major"} if ctx.quick else {"minor", "major", "churn"})):
        r = tlc_bfs(ctx, "Str", dict(NR=2, Depth=depth, Texts=ts, Nums=nums, MaxLen=4, Gcs=gcs, Mode="bfs", Ops=ops), workers=8,
                    invariants=["EmitBfs", "TypeOK"], properties=["Unchanged"], timeout=ctx.n(100, 600), heap="6g")
        ctx.add("enumerated_histories", len(r.records))
        cs = [bfs_case(x, ctx.rng, not gcs) for x in r.records]
        ctx.sample({"exhaustive": cs[len(cs) // 2].cmds, "expected": cs[len(cs) // 2].exp[-2:]})
        cases += cs
    replay(ctx, cases, name="identity of strings")
    replay(ctx, cases if len(cases) < 40000 else ctx.rng.sample(cases, 40000), name="identity of strings", gc=1)
    W = ("a", "b", "ab", "", "1", "12", "(a, b)", "nil", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "\u20ac\u00e4")
    # half: few texts, which collide often; half: texts of all kinds
    sims = []
    for ts, nr, depth, num in ((tt("a", "b", "ab", "1"), 5, 50, ctx.n(35, 700)), (tt(*W), 8, 80, ctx.n(25, 500))):
        hs = tlc_sim(ctx, "Str", dict(NR=nr, Depth=depth, Texts=ts, Nums={0, 1, 12, 7777}, MaxLen=12 if nr == 5 else 300, Gcs={"minor", "major", "churn"}, Mode="sim", Ops=BUILD),
                     num=num, depth=depth + 2, invariants=["EmitSim"], timeout=ctx.n(200, 800))
        ctx.add("random_histories", len(hs))
        ctx.sample({"random": [[s["o"], s["a"]] for s in hs[0][:12]]})
        cs = [sim_case(h, nr) for h in hs]
        replay(ctx, cs, chunk=20, name="random string history")
        for g in (1, 3, 17): replay(ctx, cs, chunk=20, name="random string history", gc=g)
        sims += [program(h, nr, ctx.rng) for h in hs]
    ctx.rng.shuffle(sims)
    check_programs(ctx, sims, gc=(1, 5), what="string program")
    # many live strings: the table grows, shrinks and its entries are reused
    n = ctx.n(700, 5000); big = []
    for k in range(ctx.n(6, 40)):
        src, exp, live = ["l = ()"], [], []
        for i in range(ctx.rng.choice((n // 7, n // 2, n))):
            w = ctx.rng.randint(0, n // 3)
            src += ["s = \"k\" + %d string" % w, "l push(s)"] ; live.append(w)
        q = [ctx.rng.randint(0, n // 3) for _ in range(200)]
        src += ["t = (1=1)"] + ["t put(\"k%d\", %d)" % (w, w) for w in q]
        src += ["c = 0", "l each (x): if (t at(x) != nil): c = c + 1..", "(c) say"]; exp.append("(%d)" % sum(w in q for w in live))
        src += ["l = nil", "i = 0", "while (i < 300): s = \"k\" + i string, i = i + 1.", "c = 0"]
        src += ["if (\"k%d\" == (\"k\" + %d string)): c = c + 1." % (w, w) for w in q] + ["(c) say"]; exp.append("(%d)" % len(q))
        big.append(Prog("\n".join(src) + "\n", "\n".join(exp) + "\n"))
    check_programs(ctx, big, gc=(7, 101), what="many strings")
main(check, "P04")
