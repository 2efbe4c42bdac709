import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from lang import *
from recs import *
from capts import *

def check(ctx):
    depth = dict(A=3, B=4, C=3, D=3, E=4, F=3) if ctx.quick else dict(A=5, B=6, C=4, D=5, E=6, F=5)
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda k: (k, all_programs(ctx, "Alpha" + k, depth[k], "Clo" + k, "Fin" + k, workers=3, heap="4g", timeout=800)), sorted(depth)))
    for k, ps in res:
        ctx.cov["histories_" + k] = len(ps)
        ctx.sample({"program": ps[-1].src.decode()[-600:], "output": ps[-1].exp.decode()[-200:]})
        check_programs(ctx, ps, gc=(7,), what="closure history " + k)
    ps = []
    for num, dep, size in ((ctx.n(120, 4000), 10, 2), (ctx.n(60, 2500), 8, 3)):
        ps += random_programs(ctx, num, depth=dep, feat=FULL | {"clo"}, size=size, timeout=ctx.n(200, 800))
    ctx.cov["random_programs"] = len(ps)
    check_programs(ctx, ps, gc=(5,), what="random program with closures")
    # closures writing variables of activations far down the stack
    check_deep(ctx, "deep_call_programs", ctx.n(15, 300), {"return", "closure", "block"}, maxp=3, maxo=1, gc=(17,))
    check_capt(ctx)
main(check, "P07")
