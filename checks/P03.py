import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from strs import *
from prog import *

CH = [97, 98, 0xE4, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x10000, 0x10FFFF, 0x7F, 0x80]
def leads(rng):
    """one character for each first byte UTF-8 has, and the smallest and largest of some"""
    cs = []
    for b in range(0xC2, 0xF5):
        lo, hi = ((b & 31) << 6, 6) if b < 0xE0 else ((b & 15) << 12, 12) if b < 0xF0 else ((b & 7) << 18, 18)
        lo, hi = max(lo, 0x80 if b < 0xE0 else 0x800 if b < 0xF0 else 0x10000), min(lo + (1 << hi) - 1, 0xD7FF if b == 0xED else 0x10FFFF)
        cs.append(rng.choice((lo, hi, rng.randint(lo, hi), rng.randint(lo, hi))))
    return cs
def texts(rng, long):
    ts = [[], [97], [98], [0xE4], [0x20AC], [0x10000], [0xE4, 98], [97, 0x20AC, 0x10FFFF], [49, 50], [45, 55], [43, 48, 48, 57], [48], [0x7FF, 0x800, 0x80, 0x7F, 0xFFFD]]
    ch = CH + rng.sample(leads(rng), 12)
    return ts + [[rng.choice(ch) for _ in range(n)] for n in ([2, 3, 4, 5, 7, 9, 12, 30] + long)]
OPS = {"lit", "+", "call", "slice", "length", "ord", "cmp", "number", "string", "bytes", "clone", "append", "mov", "num"}

def check(ctx):
    cases = []
    for ops, ts, nr, depth, nums in (
            ({"lit", "call", "length", "ord", "number", "string", "bytes", "clone"}, texts(ctx.rng, [40]), 1, 3, {0, -12}),
            ({"lit", "call", "length", "ord", "slice"}, [[c] for c in leads(ctx.rng)] + [[ctx.rng.choice(leads(ctx.rng)) for _ in range(6)] for _ in range(6)], 1, 2, {0}),
            ({"lit", "slice"}, texts(ctx.rng, [30, 60]), 1, 2, {0}),
            ({"lit", "+", "cmp", "append", "bytes", "string", "clone", "call"}, [[97], [0xE4], [0x20AC, 97], [0x10000]] + ([[]] if not ctx.quick else []), 2, ctx.n(3, 4), {0}),
            ({"lit", "bytes", "append", "clone", "mov"}, [[97] * 12, [0x20AC] * 4], 2, ctx.n(4, 5), {0})):
        r = tlc_bfs(ctx, "Str", dict(NR=nr, Depth=depth, Texts=("tla", "{%s}" % ", ".join(tla(t) for t in ts)), Nums=nums, MaxLen=64, Gcs=set(), Mode="bfs", Ops=ops), workers=8,
                    invariants=["EmitBfs", "TypeOK", "CutLaw"], properties=["Unchanged"], timeout=ctx.n(100, 600))
        recs = r.records
        ctx.add("enumerated_histories", len(recs))
        cs = [bfs_case(x, ctx.rng, ctx.rng.random() < .3) for x in recs]
        ctx.sample({"exhaustive": cs[len(cs) // 2].cmds, "expected": cs[len(cs) // 2].exp[-2:]})
        cases += cs
    ctx.cov["exhaustive_histories_replayed"] = len(cases)
    replay(ctx, cases, name="string operations")
    sims = tlc_sim(ctx, "Str", dict(NR=5, Depth=50, Texts=("tla", "{%s}" % ", ".join(tla(t) for t in texts(ctx.rng, [60, 120, 200, 254, 255, 256, 257]))), Nums={0, 7, -3, 123456}, MaxLen=520,
                   Gcs={"minor", "major"}, Mode="sim", Ops=OPS), num=ctx.n(40, 700), depth=52, invariants=["EmitSim", "Decodes"], timeout=ctx.n(200, 800))
    ctx.cov["random_histories"] = len(sims)
    ctx.sample({"random": [[s["o"], s["a"]] for s in sims[0][:12]]})
    replay(ctx, [sim_case(h, 5) for h in sims], chunk=20, name="random string history")
    replay(ctx, [sim_case(h, 5) for h in sims[:ctx.n(40, 600)]], chunk=8, name="random string history", gc=3)
    check_programs(ctx, [program(h, 5, ctx.rng, eq=False) for h in sims], what="string program")
main(check, "P03")
