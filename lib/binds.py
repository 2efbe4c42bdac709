"""Programs of Bind.tla: calls with many parameters."""
from vlib import *
from prog import *
NAMES = ["a", "b", "ab", "abc", "x", "y", "x1", "x2", "n", "nn", "value", "values", "value2", "k", "is_set", "z", "zz", "ba", "q", "w"]
def lit(a): return ("false", "true")[a[1]] if a[0] == "b" else "nil" if a[0] == "n" else str(a[1]) if a[0] == "i" else '"t%d"' % a[1]
def shown(v): return ("false", "true")[v[1]] if v[0] == "b" else "nil" if v[0] == "n" else str(v[1]) if v[0] == "i" else "t%d" % v[1] if v[0] == "s" else "(" + (", ".join(map(shown, v[1])) or "none") + ")"
def program(rec):
    fs = rec["f"]
    def callee(i): return "o f%d" % i if fs[i - 1]["meth"] else "f%d" % i
    def arg(a):
        if a[0] == "v": return "v%d" % a[1]
        if a[0] == "op": return "%d + %d * 2" % (a[1], a[2])
        if a[0] == "call":
            f = fs[a[1] - 1]; k = f["req"] + a[3] % (len(f["def"]) + 1)
            return "%s(%s)" % (callee(a[1]), ", ".join(map(arg, a[2][:k])))
        return lit(a)
    src = ["v1 = 1001", "v2 = 1002", "v3 = 1003", "C = class: /h = 1.", "o = C()"]; exp = []; lines = []
    for i, f in enumerate(fs):
        nm = [NAMES[k - 1] for k in f["nm"]]; r = f["req"]
        req = ["%s=o" % v for v in nm] if f["style"] == "typed" else nm[:r]
        if f["style"] == "bar": sig = ", ".join(req) + ("|" + ", ".join(nm[r:]) if nm[r:] else "")
        else: sig = ", ".join(req + ["%s:=%s" % (v, lit(d)) for v, d in zip(nm[r:], f["def"])])
        src += ["%sf%d = (%s): (%s)." % ("C " if f["meth"] else "", i + 1, sig, ", ".join(nm)) if nm else "%sf%d = (): (\"none\",)." % ("C " if f["meth"] else "", i + 1)]
        if not f["meth"]:
            src.append("(f%d arity, f%d minargs) say" % (i + 1, i + 1)); exp.append("(%d, %d)" % (len(nm), r)); lines.append(src[-1])
    for c in rec["l"]:
        f = fs[c["f"] - 1]; nm = [NAMES[k - 1] for k in f["nm"]]
        t = "%s(%s)" % (callee(c["f"]), ", ".join([arg(a) for a in c["pos"]] + ["%s=%s" % (nm[i - 1], arg(a)) for i, a in c["nam"]]))
        h = c["how"]; e = "(" + ", ".join(map(shown, c["out"])) + ")"
        if not nm: continue
        if h == 1: src.append("(%s, 7) say" % t); e = "(%s, 7)" % e
        elif h == 2: src += ["r = " + t, "r say"]
        elif h == 3: src += ["g = ():", "  " + t, ".", "g() say"]
        elif h == 4: src += ["2 times (i):", "  %s say" % t, "."]; exp.append(e); lines.append(t)
        else: src += ["g = (p, q, u, w):", "  s = " + t, "  (p, s, w)", ".", "g(1, 2, 3, 4) say"]; e = "(1, %s, 4)" % e
        exp.append(e); lines.append(t)
    return Prog("\n".join(src) + "\n", "".join(e + "\n" for e in exp), lines=lines)
def check_binds(ctx):
    C = dict(NNames=len(NAMES))
    r = tlc_bfs(ctx, "Bind", dict(Mode="bfs", Depth=2, MaxN=ctx.n(11, 14), **C), workers=4, invariants=["Total", "Emit"], timeout=ctx.n(200, 600)).records
    ctx.cov["calls_with_many_parameters"] = len(r)
    # several functions in a program
    ps = []
    for lo in range(0, len(r), 25):
        src, exp, lines = "", b"", []
        for k, x in enumerate(r[lo:lo + 25]):
            p = program(x); src += p.src.decode().replace("f1", "fn%d" % k); exp += p.exp; lines += p.lines
        ps.append(Prog(src, exp, lines=lines))
    check_programs(ctx, ps, what="call with many parameters")
    ps = bind_programs(ctx, ctx.n(30, 1500))
    ctx.cov["random_call_histories"] = len(ps); ctx.sample({"program": ps[0].src.decode()[:900], "output": ps[0].exp.decode()[:300]})
    check_programs(ctx, ps, what="calls with many parameters")
def bind_programs(ctx, num):
    """random programs of functions and calls of them"""
    hs = []
    for dep, mx in ((12, 14), (10, 5)):
        hs += tlc_sim(ctx, "Bind", dict(Mode="sim", Depth=dep, MaxN=mx, NNames=len(NAMES)), num=num, depth=dep + 1, invariants=["Total", "Emit"], timeout=ctx.n(200, 600))
    return [program(h) for h in hs]
