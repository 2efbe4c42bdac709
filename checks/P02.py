import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from coll import *

TABLE = {"put", "at", "remove", "length", "clone", "slice", "keys", "values", "each", "mapw", "filt", "filt2", "filti", "string"}
BUILD = {"set", "tup", "tab"}
WIDE = dict(Ints={-3, -1, 0, 1, 2, 7, 64, 250, 100000}, Strs=("tla", "{<<>>, <<97>>, <<98,99>>, <<97,98>>, <<120,121,122>>}"))

# integer keys whose hash values share their low bits, so that probe sequences overlap
CLASH = dict(Ints={0, 1} | {k << 8 for k in range(-6, 14)}, Strs=("tla", "{<<97>>, <<98,99>>}"))

def check(ctx):
    recs = []
    cfgs = [dict(NR=2, Ints={1}, Strs=("tla", "{<<97>>}"), MaxLen=2, MaxObj=1, Depth=ctx.n(4, 6)),
            dict(NR=2, Ints={0, -5}, Strs=("tla", "{<<97>>}"), MaxLen=3, MaxObj=2, Depth=ctx.n(2, 3))]
    for c in cfgs:
        r = tlc_bfs(ctx, "Coll", dict(c, Mode="bfs", OpNames=TABLE | BUILD), view="View",
                    invariants=["WellFormed", "Laws"], workers=8, timeout=ctx.n(150, 700))
        for rec in r.records:
            recs.append(bfs_case(rec, ctx.rng, c["NR"], ctx.rng.random() < .3))
    ctx.cov["exhaustive_transitions_replayed"] = len(recs)
    ctx.sample({"exhaustive": recs[len(recs) // 2].cmds, "expected": recs[len(recs) // 2].exp[-1]})
    replay(ctx, recs, name="every table operation from every small state")
    # tables weigh more: put and remove dominate so that they grow past several resizes and shrink again
    sim = []
    for ops, depth, num, lits in ((TABLE | BUILD | {"gc"}, 60, ctx.n(30, 700), WIDE),
                                  ({"put", "remove", "at", "keys", "length", "filt2", "gc"}, 120, ctx.n(6, 150), WIDE),
                                  ({"put", "remove", "at", "length", "clone", "values"}, 120, ctx.n(10, 250), CLASH)):
        sim += tlc_sim(ctx, "Coll", dict(NR=2 if lits is CLASH else 3, Mode="sim", MaxLen=120, MaxObj=60, Depth=depth, OpNames=ops, **lits),
                       num=num, depth=depth + 1, invariants=["Emit", "WellFormed"], timeout=ctx.n(200, 800))
    cases = [sim_case(h, ctx.rng, len(h[0]['regs'])) for h in sim]
    ctx.sample({"random": cases[0].cmds[:20], "expected": cases[0].exp[:20]})
    ctx.cov["random_behaviours"] = len(cases)
    replay(ctx, cases, chunk=20, name="random table behaviour")
    check_programs(ctx, [program(h, ctx.rng) for h in sim], judge=pjudge, what="random table program")
    check_programs(ctx, [program(h, ctx.rng) for h in sim[:ctx.n(10, 300)]], judge=pjudge, gc=(1, 7), what="random table program")
main(check, "P02")
