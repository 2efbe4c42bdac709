import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from lang import *
from lits import *
import binds

def check(ctx):
    ps = all_programs(ctx, "Quick06", 1, "CtlPrelude", "CtlFinale")
    if ctx.quick: ps = ctx.rng.sample(ps, 800)
    ctx.cov["control_flow_skeletons"] = len(ps)
    check_programs(ctx, ps, pnb=True, what="control flow")
    for k, d in dict(A=3, B=3, C=3, D=3, E=3).items():
        ps = all_programs(ctx, "Alpha" + k, d, "Clo" + k, "Fin" + k)
        if ctx.quick: ps = ctx.rng.sample(ps, min(len(ps), 150))
        check_programs(ctx, ps, pnb=True, what="closure history")
    ps = all_programs(ctx, depth=4, spec="PairSpec")
    if ctx.quick: ps = ctx.rng.sample(ps, 1000)
    ctx.cov["signatures_and_calls"] = len(ps)
    check_programs(ctx, ps, pnb=True, what="call")
    tot = 0
    for num, depth, size, feat in ((ctx.n(120, 4000), 10, 2, FULL), (ctx.n(30, 1000), 6, 4, FULL), (ctx.n(4, 60), 190, 1, (FULL | {"many"}) - {"fn"})):
        ps = random_programs(ctx, num, depth=depth, feat=feat, size=size, timeout=ctx.n(200, 800))
        tot += len(ps)
        check_programs(ctx, ps, pnb=True, what="random program")
    ctx.cov["random_programs"] = tot
    ps = binds.bind_programs(ctx, ctx.n(15, 300)); ctx.cov["calls_with_defaults"] = len(ps)
    check_programs(ctx, ps, pnb=True, what="calls with defaults")
    recs = literals(ctx, 10, 500)
    for n in (10, 60, 150): check_programs(ctx, literal_programs(ctx, recs, n), pnb=True, what="literals as constants")
main(check, "P14")
