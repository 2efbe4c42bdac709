import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from lang import *
from recs import *
from binds import *

def check(ctx):
    # named arguments leave out earlier optional ones: see KNOWN_FINDINGS.json; the alphabets supply every parameter when they name one
    for spec in ("PairSpec", "NestSpec"):
        ps = all_programs(ctx, depth=4, spec=spec, size=ctx.n(1, 2), timeout=ctx.n(200, 800), heap="12g")
        ctx.cov["programs_" + spec] = len(ps)
        ctx.sample({"program": ps[-1].src.decode(), "output": ps[-1].exp.decode()})
        check_programs(ctx, ps, what="call")
    ps = random_programs(ctx, ctx.n(120, 6000), depth=10, feat=FULL | {"clo"}, size=2, timeout=ctx.n(200, 800))
    ctx.cov["random_programs"] = len(ps)
    check_programs(ctx, ps, what="random program with calls")
    check_binds(ctx)
    # calls nested deeper than the register stack of one interpreter
    check_deep(ctx, "deep_call_programs", ctx.n(15, 300), {"return", "method"}, maxp=8, maxo=4, maxl=2)
main(check, "P08")
