"""Programs of Rec.tla: calls nested deeply."""
from vlib import *
from prog import *
BOX = """bx = (v): (v, "b" + v string).
un = (l): if (l at(1) == ("b" + l at(0) string)): l at(0). else: 0.5..
"""
def program(rec, box=False):
    """box: every number is kept in a list with its text, made anew"""
    bx = (lambda e: "bx(%s)" % e) if box else (lambda e: e)
    un = (lambda v: v if v in ("n", "d") else "un(%s)" % v) if box else (lambda v: v)
    p = rec["p"]; fs = p["fs"]; meth = p["meth"]
    name = lambda i: "f%d" % i
    def ex(e, vs):
        v = lambda i: vs[(i - 1) % len(vs)]
        return bx("(%s * %d + %s * %d + %d) %% 1009" % (un(v(e[0])), e[1], un(v(e[2])), e[3], e[4]))
    src = ["top = nil"]
    if meth: src += ["Rec = class: /h = %s." % bx("1")]
    else: src += ["%s = nil" % name(i) for i in range(len(fs))]
    for i, f in enumerate(fs):
        ps = ["p%d" % (j + 1) for j in range(f["np"])]; os_ = ["o%d" % (j + 1) for j in range(len(f["opt"]))]
        vs = ["n"] + ps + os_
        sig = "n, k" + "".join(", " + v for v in ps) + "".join(", %s:=%d" % (o, d) for o, d in zip(os_, f["opt"]))
        body = []
        if meth and f["field"]: body.append("/h = " + bx("(%s * 3 + n) %% 1009" % un("/h")))
        xs = []
        for j, e in enumerate(f["loc"]):
            body.append("x%d = %s" % (j + 1, ex(e, vs + xs))); xs.append("x%d" % (j + 1))
        ni = (f["nx"] - 1) % len(fs); g = fs[ni]
        m = f["given"] % (len(g["opt"]) + 1) if g["opt"] else 0
        fresh = f["fresh"] and xs
        args = ["n - 1", "w" if fresh else "k"] + [ex(e, vs + xs) for e in f["args"][:g["np"]]] + [ex(e, vs + xs) for e in f["gargs"][:m]]
        call = "%s%s(%s)" % ("self " if meth else "", name(ni), ", ".join(args))
        rest = []
        if f["put"]: rest.append("k(n)")
        if fresh: rest += ["w = (d):", "  x1 = " + bx("(%s * 2 + d) %% 1009" % un("x1")), "  x1", "."]
        if f["block"] and not meth: rest += ["r = 0", "1 times (q):", "  r = " + call, "."]
        else: rest.append("r = " + call)
        e = f["res"]; up = bx("(%s * %d + %s * %d + %d) %% 1009" % (un("r"), e[1], un((vs + xs)[(e[2] - 1) % len(vs + xs)]), e[3], e[4])); base = ex(f["base"], vs + xs)
        if f["ret"]: body += ["if (n == 0): return (%s)." % base] + rest + [up]
        else: body += ["if (n == 0):", "  " + base, ". else:"] + ["  " + l for l in rest + [up]] + ["."]
        src += ["%s%s = (%s):" % ("Rec " if meth else "", name(i), sig)] + ["  " + l for l in body] + ["."]
    src += ["kt = (d):", "  top = " + bx("(%s * 2 + d) %% 1009" % un("top")), "  top", "."]
    exp = []
    first = ["kt"] + [bx(str(a)) for a in p["a"][:fs[0]["np"]]]
    for d, r, top, h in rec["r"]:
        src.append("top = " + bx("5"))
        if meth: src.append("o = Rec()")
        src.append("r = %sf0(%s)" % ("o " if meth else "", ", ".join([str(d)] + first)))
        src.append("(%s, %s%s) say" % (un("r"), un("top"), ", " + un("o /h") if meth else ""))
        exp.append("(%d, %d%s)" % (r, top, ", %d" % h if meth else ""))
    return Prog((BOX if box else "") + "\n".join(src) + "\n", "\n".join(exp) + "\n", lines=["depth %d" % x[0] for x in rec["r"]])
SHALLOW = (0, 1, 2, 5, 40, 100, 140)
def deep_calls(ctx, num, feat, maxf=3, maxp=5, maxo=2, maxl=4, depths=(0, 1, 2, 5, 40, 170, 300, 420, 700, 1100), box=False, procs=NCPU, timeout=300):
    recs = tlc_sim(ctx, "Rec", dict(Depths=set(depths), MaxF=maxf, MaxP=maxp, MaxO=maxo, MaxL=maxl, Feat=set(feat)), num=num, depth=3, invariants=["InRange", "Emit"], procs=procs, timeout=timeout)
    return [program(r, box) for r in recs]
def check_deep(ctx, key, num, feat, gc=(), **kw):
    """a block's activation takes an interpreter of its own on the C stack, so those nest less deep"""
    ps = deep_calls(ctx, num, feat, **kw)
    if "block" in feat: ps = [p for p in ps if b"times (q)" not in p.src] + deep_calls(ctx, max(num // 3, 1), feat, depths=SHALLOW, **kw)
    ctx.cov[key] = len(ps); ctx.sample({"program": ps[0].src.decode()[:700], "output": ps[0].exp.decode()})
    check_programs(ctx, ps, what="deep calls", gc=gc, timeout=20000)
