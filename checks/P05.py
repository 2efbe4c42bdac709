import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from coll import *
import heaps
from bulks import check_bulk
from recs import *

MUT = {"push", "pop", "shift", "unshift", "put", "remove", "delete", "clone", "slice", "reverse", "nreverse", "mapw", "filt", "reduce", "set", "tup",
       "tab", "list", "join", "string", "first", "last", "at"}
WIDE = dict(Ints={-1, 0, 1, 2, 7, 100000}, Strs=("tla", "{<<>>, <<97>>, <<98,99>>, <<97,98>>, <<120,121,122>>}"))

def check(ctx):
    recs = []
    r = tlc_bfs(ctx, "Coll", dict(NR=2, Ints={0}, Strs=("tla", "{<<97>>}"), MaxLen=2, MaxObj=3, Depth=ctx.n(4, 5), Mode="bfs",
                OpNames={"push", "put", "pop", "set", "tup", "gc"}), workers=8, view="View",
                invariants=["WellFormed"], timeout=ctx.n(100, 700))
    for rec in r.records:
        for k in range(ctx.n(1, 3)):
            recs.append(gc_case(rec, ctx.rng, 2))
    ctx.cov["exhaustive_transitions_replayed"] = len(recs)
    ctx.sample({"exhaustive": recs[len(recs) // 2].cmds, "expected": recs[len(recs) // 2].exp[-1]})
    replay(ctx, recs, name="collection between every two operations")
    sim = []
    for ops, nr, depth, num in ((MUT | {"gc"}, 6, 80, ctx.n(30, 700)), ({"push", "put", "tup", "set", "tab", "pop", "gc"}, 8, 150, ctx.n(12, 250))):
        sim += [(nr, h) for h in tlc_sim(ctx, "Coll", dict(NR=nr, Mode="sim", MaxLen=80, MaxObj=120, Depth=depth, OpNames=ops, **WIDE),
                                num=num, depth=depth + 1, invariants=["Emit", "WellFormed"], timeout=ctx.n(200, 800))]
    cases = []
    for nr, h in sim:
        cases.append(gc_sim(h, ctx.rng, nr))
    ctx.sample({"random": cases[0].cmds[:20], "expected": cases[0].exp[:20]})
    ctx.cov["random_behaviours"] = len(cases)
    replay(ctx, cases, chunk=20, name="random mutation with collections")
    graphs(ctx)
    check_bulk(ctx)

VARS = ["u", "v", "W", "Z"]
S, D, N, V = lambda i: ["s", i], lambda i: ["d", i], ["n", 0], lambda v: ["v", v]
SETUP = [["new", "u", "l", [S(1), N, S(2)]], ["new", "v", "o", [V("u"), D(3), N]], ["new", "W", "c", [V("v"), S(4), N]], ["new", "Z", "t", [V("W"), V("u"), N]], ["junk", 300]]
ALPHABET = [["put", "u", 3, S(5)], ["put", "v", 3, D(6)], ["put", "W", 3, S(7)], ["put", "Z", 3, S(8)], ["push", "u", V("v")], ["push", "Z", S(9)],
            ["new", "u", "o", [S(10), V("u"), V("Z")]], ["putat", ["v", [1]], 2, V("W")], ["putat", ["Z", [1]], 2, V("Z")], ["let", "W", N], ["load", "v", ["Z", [1]]]]
ASK = ["ask", [[v, list(p)] for v in VARS for p in ((1,), (2,), (3,), (1, 1), (2, 2), (1, 3), (4, 1))], [[["Z", [1, 1]], ["v", []]], [["Z", [2]], ["u", []]]]]
def graphs(ctx):
    """graphs of lists, tables, objects and closures as programs, collecting at every allocation"""
    C = dict(Vars=set(VARS), MaxNodes=12, MaxSlots=6)
    r = tlc_bfs(ctx, "Heap", dict(Mode="bfs", Depth=ctx.n(2, 4), Alphabet=ALPHABET, Setup=SETUP, Ask=ASK, **C), workers=8, invariants=["TypeOK", "Emit"], properties=["Written"], timeout=ctx.n(200, 600))
    ps = [heaps.program(h, ctx.rng, VARS) for h in r.records]
    ctx.cov["graph_histories"] = len(ps)
    check_programs(ctx, ps, gc=(1, 4), what="graph of objects")
    hs = []
    for num, dep in ((ctx.n(10, 150), 40), (ctx.n(3, 60), 120)):
        hs += tlc_sim(ctx, "Heap", dict(Mode="sim", Depth=dep, Alphabet=[], Setup=[], Ask=["junk", 1], **C), num=num, depth=dep + 2, invariants=["TypeOK", "Emit"], properties=["Written"], timeout=ctx.n(200, 600))
    ps = [heaps.program(h, ctx.rng, VARS) for h in hs]
    ctx.cov["random_graph_histories"] = len(ps)
    ctx.sample({"program": ps[0].src.decode()[len(heaps.PRE):][:600], "output": ps[0].exp.decode()[:200]})
    check_programs(ctx, ps, gc=(1, 3, 17), what="graph of objects")
    check_deep(ctx, "deep_call_programs", ctx.n(6, 100), {"return", "closure", "method"}, maxp=3, maxo=0, box=True, depths=(0, 2, 5, 40, 170, 300, 420), gc=(3, 17))
def rgc(rng): return rng.choice(("gc minor", "gc minor", "gc minor", "gc major", "gc churn 200"))
def gc_case(rec, rng, nr):
    """collections between all the operations of a short history"""
    c = Case(); pat = rng.random()
    c.do("cbgc %d" % rng.choice((0, 1, 2)))
    for st in rec["h"]:
        command(c, st, None, None)
        if rng.random() < pat: c.do(rgc(rng))
    c.do(rgc(rng))
    c.do("iso %d" % nr, iso(rec["regs"], rec["heap"])[0])
    return c
def gc_sim(h, rng, nr):
    c = Case(); pat = rng.choice((.1, .5, .9))
    c.do("cbgc %d" % rng.choice((0, 1, 2)))
    for st in h:
        command(c, st, st["regs"], st["heap"])
        if rng.random() < pat: c.do(rgc(rng))
        if rng.random() < .5: c.do("iso %d" % nr, iso(st["regs"], st["heap"])[0])
    c.do("iso %d" % nr, iso(h[-1]["regs"], h[-1]["heap"])[0])
    return c
main(check, "P05")
