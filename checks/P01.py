import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from coll import *

LIST = {"push", "append", "pop", "shift", "unshift", "at", "first", "last", "length", "reverse", "nreverse", "clone", "remove",
        "delete", "slice", "put", "join", "string", "cmp", "each", "mapw", "filt", "filti", "reduce"}
BUILD = {"set", "tup", "list"}
WIDE = dict(Ints={-3, -1, 0, 1, 2, 7, 250, 100000}, Strs=("tla", "{<<>>, <<97>>, <<98,99>>, <<97,98>>, <<120,121,122>>}"))

def check(ctx):
    recs = []
    cfgs = [dict(NR=2, Ints={0, -1}, Strs=("tla", "{}"), MaxLen=2, MaxObj=1, Depth=ctx.n(30, 30)),
            dict(NR=2, Ints={1, -2}, Strs=("tla", "{<<97>>}"), MaxLen=3, MaxObj=2, Depth=ctx.n(2, 3))]
    for c in cfgs:
        r = tlc_bfs(ctx, "Coll", dict(c, Mode="bfs", OpNames=LIST - {"append", "string", "join"} | BUILD), view="View",
                    invariants=["WellFormed", "Laws"], workers=8, timeout=ctx.n(120, 700))
        for rec in r.records:
            recs.append(bfs_case(rec, ctx.rng, c["NR"], ctx.rng.random() < .3))
    ctx.cov["exhaustive_transitions_replayed"] = len(recs)
    ctx.sample({"exhaustive": recs[len(recs) // 2].cmds, "expected": recs[len(recs) // 2].exp[-1]})
    replay(ctx, recs, name="every list operation from every small state")
    sim = tlc_sim(ctx, "Coll", dict(NR=4, Mode="sim", MaxLen=60, MaxObj=60, Depth=60, OpNames=LIST | BUILD | {"gc"}, **WIDE),
                  num=ctx.n(60, 1500), depth=61, invariants=["Emit", "WellFormed"], timeout=ctx.n(200, 800))
    cases = [sim_case(h, ctx.rng, 4) for h in sim]
    ctx.sample({"random": cases[0].cmds[:20], "expected": cases[0].exp[:20]})
    ctx.cov["random_behaviours"] = len(cases)
    replay(ctx, cases, chunk=20, name="random list behaviour")
    check_programs(ctx, [program(h, ctx.rng) for h in sim], judge=pjudge, what="random list program")
    check_programs(ctx, [program(h, ctx.rng) for h in sim[:ctx.n(20, 400)]], judge=pjudge, gc=(1, 7), what="random list program")
main(check, "P01")
