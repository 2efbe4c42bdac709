import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from objs import *
import wides
V, CV = ["u", "v", "w"], ["A", "B", "C", "k"]
def T(s): return ("tla", s)
def ini(ncls=""):
    return T('[cls |-> <<%s>>, obj |-> <<>>, var |-> [v \\in {"u","v","w"} |-> <<"n">>], cvar |-> [c \\in {"A","B","C","k"} |-> 0]]' % ncls)
NIL = ["n"]
def K(n): return ["const", n]
def S(v, m, r): return ["send", ["v", v] if v in V else ["c", v] if v in CV else v, m, r]
def G(v, f): return ["get", ["v", v], f]
def same(v, w): return ["same", ["v", v], ["v", w]]
def ct(np, *sets): return [dict(np=np, sets=[list(s) for s in sets])]
P1, P2 = ["p", 1], ["p", 2]
# each alphabet: (operations before, alphabet, questions after each operation)
ALPH = {
  # definitions anywhere in a chain of three classes and in the built-in ones, the same call sites after each
  "define": ([["class", "A", "Object", []], ["class", "B", "A", []], ["new", "u", "A", []], ["new", "v", "B", []]],
    [["def", ["b", 1], "m1", K(1)], ["def", ["b", 2], "m1", K(2)], ["def", ["b", 3], "m1", K(3)], ["def", ["c", "A"], "m1", K(4)], ["def", ["c", "B"], "m1", K(5)],
     ["def", ["k", "u"], "m2", ["self", "m3", 6]], ["def", ["c", "B"], "m3", K(7)], ["def", ["c", "A"], "m3", K(8)], ["def", ["c", "A"], "m1", ["self", "m2", 9]],
     ["def", ["k", "w"], "m3", K(10)]],
    [S("u", "m1", 1), S("v", "m1", 7), S("v", "m2", 4), S("u", "m3", 2), S(["i", 0], "m1", 2), S("w", "m3", 2), ["has", ["v", "v"], "m1", 1], ["qsend", ["v", "w"], "m3"], S("A", "m1", 1)]),
  # fields: classes with inherited and own constructors, aliases, objects referring to each other
  "fields": ([["class", "A", "Object", ct(1, ("x", P1))], ["class", "B", "A", ct(2, ("y", P1), ("x", P2))], ["class", "C", "B", []], ["new", "u", "A", [["i", 1]]], ["new", "v", "B", [["i", 2], ["v", "u"]]]],
    [["set", "u", "x", ["i", 5]], ["set", "u", "y", ["i", 6]], ["set", "v", "x", ["v", "v"]], ["set", "v", "y", ["v", "u"]], ["set2", "v", "x", "x", ["i", 7]], ["set2", "v", "y", "x", ["v", "v"]],
     ["new", "w", "C", [["v", "u"], ["i", 8]]], ["let", "w", ["v", "v"]], ["set", "w", "x", NIL], ["let", "v", ["v", "w"]]],
    [G("u", "x"), G("v", "x"), G("v", "y"), G("w", "x"), G("w", "y"), G("u", "y"), ["get2", ["v", "v"], "x", "x"], ["get2", ["v", "v"], "y", "x"], ["hasf", ["v", "w"], "y"], ["hasf", ["v", "u"], "x"], same("v", "w"), ["samef", ["v", "v"], "y", ["v", "u"]]]),
  # classes: rebinding of names, subclasses made after and before methods
  "classes": ([["class", "A", "Object", ct(0, ("x", ["k", 3]))], ["new", "u", "A", []]],
    [["class", "B", "A", []], ["class", "A", "Object", []], ["class", "A", "A", ct(0, ("y", ["m", "m1"]))], ["clet", "k", "A"], ["clet", "A", "k"], ["new", "v", "A", []], ["new", "w", "k", []],
     ["def", ["c", "A"], "m1", ["get", "x", 1]], ["def", ["c", "k"], "m1", ["field", "y", "m2"]], ["def", ["b", 5], "m2", K(4)]],
    [S("u", "m1", 2), S("v", "m1", 2), S("w", "m1", 3), G("v", "x"), G("v", "y"), ["isa", ["v", "v"], "A", 1], ["isa", ["v", "u"], "A", 2], ["sub", ["v", "w"], "A"], ["sub", ["v", "v"], "A"]]),
  # constructors without fields
  "makers": ([["class", "A", "Object", ct(0, ("#", P1))], ["class", "B", "A", []], ["new", "u", "A", []]],
    [["class", "B", "A", []], ["class", "C", "B", []], ["class", "A", "B", []], ["class", "C", "A", ct(0, ("x", ["m", "m1"]), ("#", P1))], ["class", "B", "C", ct(0, ("y", ["k", 2]))], ["def", ["c", "A"], "m1", ["count"]],
     ["new", "u", "A", []], ["new", "v", "B", []], ["new", "w", "C", []]],
    [["cnt"], G("u", "x"), G("v", "x"), G("w", "y"), ["isa", ["v", "v"], "A", 1], ["sub", ["v", "w"], "A"], S("v", "m1", 2), ["cnt"]]),
  # metaclasses
  "meta": ([["class", "A", "Object", []], ["class", "B", "A", []], ["new", "u", "A", []], ["new", "v", "B", []]],
    [["meta", "A", "m1", K(1)], ["meta", "B", "m1", ["self", "m2", 2]], ["meta", "A", "m2", K(3)], ["def", ["c", "A"], "m1", K(4)], ["def", ["b", 7], "m2", K(5)], ["def", ["b", 1], "m2", K(6)],
     ["def", ["c", "B"], "m2", K(7)], ["meta", "B", "m2", ["count"]]],
    [S("A", "m1", 6), S("B", "m1", 2), S("u", "m1", 7), S("v", "m1", 2), S("A", "m2", 2), S("B", "m2", 1), S("v", "m2", 3), ["has", ["v", "u"], "m2", 1]]),
  # methods that change fields and answers
  "effects": ([["class", "A", "Object", ct(1, ("x", P1), ("y", ["m", "m1"]))], ["class", "B", "A", ct(0, ("x", ["m", "m2"]), ("z", ["k", 9]))], ["new", "u", "A", [["i", 1]]]],
    [["def", ["c", "A"], "m1", ["count"]], ["def", ["c", "B"], "m1", ["put", "x", 4]], ["def", ["c", "A"], "m2", ["get", "x", 5]], ["def", ["c", "A"], "s", ["set", "x"]], ["def", ["c", "B"], "s", ["set", "z"]],
     ["def", ["b", 2], "s", ["arg", "m2", 6]], ["new", "v", "A", [["v", "u"]]], ["new", "v", "B", []], ["set", "u", "x", ["v", "v"]]],
    [["cnt"], S("u", "m1", 2), S("v", "m1", 1), S("v", "m2", 2), ["sendarg", ["v", "u"], ["i", 7], 2], G("u", "x"), ["qarg", ["v", "v"], ["v", "u"]], ["sendarg", ["v", "v"], ["v", "u"], 1], G("v", "x"), G("v", "y"), G("v", "z")]),
}
def start(ops):
    """the operations before, as TLA+ steps done by the first Depth"""
    return ops
def bfs(ctx, name, depth):
    pre, alph, qs = ALPH[name]
    r = tlc_bfs(ctx, "Obj", dict(Mode="bfs", Depth=2 * depth + len(pre), Alphabet=alph, Pre=pre, Classes0=ini(), Vars=set(V), CVars=set(CV), MaxC=8, MaxO=12, Setup=qs),
                invariants=["TypeOK", "Inherit", "Emit"], workers=3, heap="3g", timeout=800)
    return [program(h, ctx.rng) for h in r.records]
def check(ctx):
    depth = dict(define=3, fields=3, classes=3, meta=4, effects=3, makers=3) if ctx.quick else dict(define=4, fields=4, classes=4, meta=5, effects=4, makers=4)
    with ThreadPoolExecutor(5) as ex: res = list(ex.map(lambda k: (k, bfs(ctx, k, depth[k])), sorted(depth)))
    for k, ps in res:
        ctx.cov["histories_" + k] = len(ps)
        ctx.sample({"program": ps[-1].src.decode()[len(PRE):][-600:], "output": ps[-1].exp.decode()[-200:]}, limit=8)
        check_programs(ctx, ps, judge=judge, gc=(), what="history '%s'" % k)
        check_programs(ctx, ctx.rng.sample(ps, min(len(ps), ctx.n(150, 3000))), judge=judge, modes=("-B", "-X"), gc=(1, 7), what="history '%s'" % k)
    hs = []
    for num, dep in ((ctx.n(40, 1500), 40), (ctx.n(4, 150), 120)):
        hs += tlc_sim(ctx, "Obj", dict(Mode="sim", Depth=dep, Alphabet=[], Pre=[], Classes0=ini(), Vars=set(V), CVars=set(CV), MaxC=dep // 5, MaxO=dep // 3, Setup=[]),
                      num=num, depth=dep + 2, invariants=["TypeOK", "Inherit", "Emit"] if dep < 100 else ["TypeOK", "Emit"], timeout=ctx.n(200, 800))
    ps = [program(h, ctx.rng) for h in hs]
    ctx.cov["random_histories"] = len(ps)
    check_programs(ctx, ps, judge=judge, what="random history of classes and objects")
    check_programs(ctx, ctx.rng.sample(ps, min(len(ps), ctx.n(120, 3000))), judge=judge, gc=(1, 5), what="random history of classes and objects")
    wides.check_wide(ctx)
main(check, "P09")
