"""Literals: records of Lit.tla as Potion text and what they print."""
from vlib import *
from prog import *
CHARS = "aZ09n t\n.:#%([|'\"\\,;uU]){}&é€ł\U0001f600"
CODES = [ord(c) for c in CHARS]
LITC = dict(NChars=len(CODES), Codes=CODES, Quote1=39, Quote2=34, Back=92, MaxLen=700)
def dig(ds): return "".join("%x" % d for d in ds)
def flo(f): return ("-" if f["neg"] else "") + dig(f["a"]) + ("." + dig(f["b"]) if f["b"] else "") + ("e%+d" % f["e"][0] if f["e"] else "")
def piece(p):
    k = p[0]
    return CHARS[p[1] - 1] if k == "raw" else "\\" + p[1] if k == "esc" else "\\u" + dig(p[1]) if k == "u" else "\\U{" + dig(p[1]) + "}" if k == "U" else \
        "\\" + CHARS[p[1] - 1] if k == "back" else CHARS[p[1] - 1] * 2
def text(r):
    k = r["k"]
    if k == "dec": return ("-" if r["neg"] else "") + dig(r["t"])
    if k == "hex": return "0x" + "".join(("%X" if u else "%x") % d for d, u in zip(r["t"], r["up"]))
    return "'\""[r["q"] - 1] + "".join(piece(p) for p in r["t"]) + "'\""[r["q"] - 1]
def lines(r, rng):
    """[(statement, output)] that show the value of the literal(s)"""
    k = r["k"]
    if k == "flo":
        f, g, c = flo(r["f"]), flo(r["g"]), r["c"]
        # a number without point and exponent is an integer: not compared with floating point ones here
        return [("(%s %s %s) print" % (a, o, b), "true" if v else "false") for a, b, d in ((f, g, c), (g, f, -c)) for o, v in (("==", d == 0), ("<", d < 0), ("<=", d <= 0), (">", d > 0))]
    t = text(r)
    v = ("-" if r["neg"] else "") + dig(r["v"]) if k != "str" else "".join(map(chr, r["v"]))
    if k != "str" and not r["int"]:        # beyond the integers: the nearest floating point number, or one next to it
        x = float(v); lo, hi = x - abs(x) * 2.0 ** -51, x + abs(x) * 2.0 ** -51
        return [("(%s > %.1f) print" % (t, lo), "true"), ("(%s < %.1f) print" % (t, hi), "true")]
    w = rng.randrange(5)
    if w == 0: return [("%s print" % t, v)]
    if w == 1: return [("x = %s" % t, ""), ("x print", v)]
    if w == 2: return [("(%s, 1) at(0) print" % t, v)]
    if w == 3: return [("id(%s) print" % t, v)]
    return [("(%s, %s) string print" % (t, t), "(%s, %s)" % (v, v))]
def literal_programs(ctx, recs, per=60):
    ls = [lines(r, ctx.rng) for r in recs]
    progs = []
    for i in range(0, len(ls), per):
        part = [l for x in ls[i:i + per] for l in x]
        progs.append(Prog("id = (x): x.\nx = 0\n" + "".join(s + "\n" + '"\\n" print\n' for s, _ in part), "".join(e + "\n" for _, e in part)))
    return progs
def literals(ctx, q, t):
    recs = tlc_sim(ctx, "Lit", dict(LITC, Depth=40), num=ctx.n(q, t), depth=121, invariants=["Emit", "Order"], timeout=ctx.n(300, 800), procs=4)
    ctx.rng.shuffle(recs)
    ctx.cov["literals"] = ctx.cov.get("literals", 0) + len(recs)
    return recs
