import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from lang import *
from recs import *

def check(ctx):
    ps = all_programs(ctx, "Quick06" if ctx.quick else "Deep06", 1, "CtlPrelude", "CtlFinale")
    ctx.cov["control_flow_skeletons"] = len(ps)
    check_programs(ctx, ps, what="control flow")
    tot = 0
    for num, depth, size, feat, nv in ((ctx.n(200, 6000), 10, 2, FULL, 60), (ctx.n(60, 2000), 6, 4, FULL, 60), (ctx.n(20, 400), 40, 1, FULL, 60),
                                       (ctx.n(4, 60), 190, 1, (FULL | {"many"}) - {"fn"}, 60), (ctx.n(20, 600), 5, 2, {"jumps", "ret", "fn"}, 60)):
        ps = random_programs(ctx, num, depth=depth, feat=feat, size=size, nv=nv, timeout=ctx.n(200, 800))
        tot += len(ps)
        ctx.sample({"program": ps[0].src.decode()[:600], "output": ps[0].exp.decode()[:200]})
        check_programs(ctx, ps, what="random program")
    ctx.cov["random_programs"] = tot
    check_deep(ctx, "deep_call_programs", ctx.n(12, 250), {"return", "block"}, maxf=2, maxl=ctx.n(4, 9))
main(check, "P06")
