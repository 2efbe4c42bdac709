import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *

def values(quick):
    vs = [["k", k] for k in (0, 1, -1, 2, 3, -3, -8, 10, 62, 1000003, -999) + (() if quick else (-2, 7, 63, 64, 255, -256))]
    for p in (31, 53, 61, 62) if quick else (11, 12, 15, 16, 30, 31, 32, 33, 47, 52, 53, 60, 61, 62):
        vs += [["p", p, -1], ["p", p, 0], ["p", p, 1], ["m", p, 0], ["m", p, -1]] + ([] if quick else [["m", p, 1], ["p", p, -7], ["m", p, 12345]])
    return vs + [["p", 62, -2], ["m", 62, 1]]

def same(kind, want, got):
    """is the printed text got the value wanted"""
    if kind != "d": return got == want
    try: g = float(got)
    except ValueError: return False
    if "e" not in got and "." not in got: return False
    from fractions import Fraction
    try: return abs(Fraction(g) - int(want)) <= abs(int(want)) / Fraction(2 ** 51)
    except (OverflowError, ValueError): return False

def dtext(num, den):
    """the printed form of the double nearest to num/den, signless when zero"""
    t = "%.16f" % (int(num) / int(den))         # int / int rounds correctly
    t = t.rstrip("0"); t += "0" if t.endswith(".") else ""
    return t.lstrip("-") if float(t) == 0 else t
def dlit(v):
    k, t = v
    if k == "i": return t
    n = int(t); s = "%d.%s" % (abs(n) // 16, ("%04d" % (abs(n) % 16 * 625)).rstrip("0") or "0")
    return "-" + s if n < 0 else s
def djudge(p, st, out):
    ls = out.decode("latin-1").split("\n")
    return st == 0 and len(ls) == len(p.want) + 1 and all((l[1:-1].lstrip("-") if l in ("(-0.0)", "(0.0)") else l[1:-1]) == w for w, l in zip(p.want, ls))
def judge(p, st, out):
    ls = out.decode("latin-1").split("\n")
    return st == 0 and len(ls) == len(p.want) + 1 and all(same(k, "(%s)" % w if k != "d" else w, l if k != "d" else l.strip("()")) for (k, w), l in zip(p.want, ls))
class P(Prog):
    __slots__ = ("want",)

def text(a, o, b, style):
    if style == 0: return (o + " " + a) if o == "~" else "-" + a if o == "-" and b == "" else a + " " + o if b == "" else a + " cmp(" + b + ")" if o == "cmp" else a + " " + o + " " + b
MIN = str(-2 ** 62)
def num(t): return t if t != MIN else "%d - 1" % (-2 ** 62 + 1)
def check(ctx):
    rs = tlc_bfs(ctx, "Num", dict(Mode="pairs", Values=values(ctx.quick), Depth=0, Offsets=[]), workers=8, invariants=["EmitPair", "TypeOK", "Laws2"], timeout=800).records
    ctx.cov["pairs"] = len(rs)
    lines = []; cases = []
    for r in rs:
        c = Case()
        for o, (k, w) in r["r"]:
            for lit in (0, 1):
                a, b = (r["a"], r["b"]) if lit else ("x", "y" if r["b"] else "")
                if lit and o == "-" and b == "": continue
                if lit and o == "**" and a[0] == "-": continue          # -2 ** 2: the sign is part of the literal
                if lit and MIN in (a, b): continue                      # no literal: 2**62 is none
                lines.append((([] if lit else ["x = " + num(r["a"])] + (["y = " + num(r["b"])] if r["b"] else [])), "(%s) say" % text(a, o, b, 0), (k, w)))
            if o in ("+", "-", "*", "/", "%", "**", "<<", ">>", "cmp", "~", "abs", "string") and not (o == "-" and r["b"] == ""):
                c.do("send 0 i%s %s%s" % (r["a"], o, " i" + r["b"] if r["b"] else ""), None)
                c.exp[-1] = ("i" + w, k) if k == "i" and o != "string" else ("s" + w.encode().hex(), "s") if o == "string" else (w, k)
        cases.append(c)
    def progs():
        for i in range(0, len(lines), 150):
            part = lines[i:i + 150]
            p = P("".join("\n".join(s + [t]) + "\n" for s, t, _ in part), "".join("(%s)\n" % w for _, _, (k, w) in part), lines=["\n".join(s + [t]) for s, t, _ in part])
            p.want = [w for _, _, w in part]; yield p
    ps = list(progs())
    ctx.cov["operations"] = len(lines)
    ctx.sample({"operation": lines[len(lines) // 3]})
    check_programs(ctx, ps, judge=judge, what="integer operation")
    # by method call: doubles are compared with a tolerance here, so not with replay()
    drv = ctx.driver()
    for k in range(0, len(cases), 300):
        cs = cases[k:k + 300]
        out, rc = run_driver(drv, "-X", "".join("reset\n" + "\n".join(c.cmds) + "\n" for c in cs))
        q = 0
        for c in cs:
            q += 1
            good = True
            for cmd, (w, kind) in zip(c.cmds, c.exp):
                got = out[q] if q < len(out) else "<no output>"; q += 1
                if not (got == w if kind in ("i", "s") else got[:1] == "d" and same("d", w, got[1:] if "." in got or "e" in got else got[1:] + ".0")):
                    good = False
                    ctx.violation("method call %s gives %s, the specification says %s" % (cmd, got, w), "feed to drv (drv/drv.c):\nreset\n%s\n" % cmd)
            if good: ctx.add("traces_validated_against_impl", 1)
    hs = [h for h in tlc_sim(ctx, "Num", dict(Mode="chain", Values=values(True), Depth=60, Offsets=[]), num=ctx.n(25, 800), depth=61,
                             invariants=["EmitChain", "TypeOK"], timeout=ctx.n(200, 800)) if h]
    ctx.cov["chains"] = len(hs)
    cp = []
    for h in hs:
        t = ["x = 0"]; e = []
        for o, b, v in h:
            if b == MIN or b[0] == "-" and o in "-+": t.append("y = " + num(b)); b = "y"
            t += ["x %s= %s" % (o, b) if o in ("+", "-", "*", "<<", ">>") and len(t) % 2 else "x = x %s %s" % (o, b), "(x) say"]
            e.append("(%s)\n" % v)
        cp.append(Prog("\n".join(t) + "\n", "".join(e)))
    check_programs(ctx, cp, what="chain of operations")
    its = tlc_bfs(ctx, "Num", dict(Mode="iter", Values=[], Depth=0, Offsets=[["k", 0], ["p", 31, 0], ["m", 31, 0], ["p", 53, 0], ["p", 62, -12], ["m", 62, 10]]), workers=4, invariants=["EmitIter"]).records
    ctx.cov["iterations"] = len(its)
    ip = []
    for i in range(0, len(its), 40):
        src, exp = [], []
        for k, a, b, c, vs in its[i:i + 40]:
            src.append("l = ()\n" + {"times": "%s times (i): l push(i).", "to": "%s to (%s) (i): l push(i).", "step": "%s step (%s, %s) (i): l push(i)."}[k] % tuple(x for x in (a, b, c) if x) + "\n(l) say\n")
            exp.append("((%s))\n" % ", ".join(vs))
        ip.append(Prog("".join(src), "".join(exp), lines=src))
    check_programs(ctx, ip, what="iteration")
    # a floating point operand
    dv = [["d", ["k", k]] for k in (0, 8, -16, 24, -40, 1, 16001) + (() if ctx.quick else (16, -8, 56, -100, -3, 160))] + [["i", ["k", k]] for k in (0, 1, -3, 7) + (() if ctx.quick else (-1, 2, 3, 10, 1000003))] \
       + [["d", ["p", p, d]] for p in ((37, 49)[:1] if ctx.quick else (20, 35, 36, 37, 49, 52)) for d in (8, -1)] + [["d", ["m", p, 8]] for p in (37, 49)] + [["i", [s, p, 1]] for p in (31, 40, 47) for s in "pm"]
    dr = tlc_bfs(ctx, "Num", dict(Mode="dbl", Values=dv, Depth=0, Offsets=[]), workers=8, invariants=["EmitDbl", "DLaws"], timeout=800).records
    ctx.cov["pairs with a double"] = len(dr)
    dl = []
    for r in dr:
        A = dlit(r["a"]); B = dlit(r["b"]) if r["b"] else None
        for o, w in r["r"]:
            w = dtext(*w[1:]) if w[0] == "q" else w[1]
            for lit in (0, 1):
                a, b = (A, B) if lit else ("x", "y")
                if o == "sqrt": dl.append((["x = %s * %s" % (A, A)], "(x sqrt) say", w)); break
                if lit and B is None and A[0] == "-": continue
                dl.append(([] if lit else ["x = " + A] + (["y = " + B] if B else []), "(%s) say" % text(a, o, b if B else "", 0), w))
    dp = []
    for i in range(0, len(dl), 150):
        part = dl[i:i + 150]
        p = P("".join("\n".join(s + [t]) + "\n" for s, t, _ in part), "".join("(%s)\n" % w for _, _, w in part), lines=["\n".join(s + [t]) for s, t, _ in part])
        p.want = [w for _, _, w in part]; dp.append(p)
    ctx.cov["operations with a double"] = len(dl)
    check_programs(ctx, dp, judge=djudge, what="operation with a double")
main(check, "P10")
