import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *
from lits import *

BIN = ["or", "and", "<=>", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "**"]
UN = ["not", "~", "-"]
def lits(rows): return [[["v", x] if isinstance(x, str) else ["n", x] for x in r] for r in rows]
L1 = lits([[7, 2, 3, 1, 4], [2, "x", "z", "y", 1], [9, 3, "w", 5, 2]])
L2 = L1 + lits([["x", "y", 2, "z", 1], [1, 2, 6, 3, "w"], [0, 4, 2, 5, "x"]])
TIGHT = set("+ * % ** << >> < <= > >= == != <=> ( ) | ,".split())

def spaced(ts, rng, style):
    """the tokens as text; style 0 single spaces, 1 as tight as the lexer allows, 2 random blanks, 3 line ends and comments after operators"""
    out = []
    for i, t in enumerate(ts):
        out.append(t)
        if i + 1 == len(ts): break
        n = ts[i + 1]
        ops = t in TIGHT or t in ("-", "/", "~", "not", "and", "or")
        if style == 1 and t != "." and n != "." and (t in TIGHT and t != "|" or n in TIGHT and n not in ("|", "(")) and \
                not (t[-1] in "<>=*!" and n[0] in "<>=*!|") and t + n not in ("||", "**", "+-", "-+", "++"):
            continue
        if style == 1 and (t == "~" or (t == "-" and n not in ("-", "|", "(") and (i == 0 or ts[i - 1] == "("))): continue
        if style == 3 and ops and t != ")" and rng.random() < .4:
            out.append(rng.choice(("\n", "\n  ", " # + 1\n ", "\n\n\t")))
        elif style >= 2: out.append(rng.choice((" ", "  ", "\t", "   ")))
        else: out.append(" ")
    return "".join(out)

HEAD = "x = 5\nz = 3\nw = false\n"       # y stays nil
def programs(ctx, recs, per=120):
    lines = []
    for r in recs:
        for k, style in (("m", 0), ("f", 0), ("g", 0), ("m", 1), ("m", 2), ("m", 3), ("f", 3)):
            if style and ctx.quick and ctx.rng.random() < .5: continue
            lines.append(("(" + spaced(r[k], ctx.rng, style) + ") say", "(" + r["v"] + ")"))
    ctx.rng.shuffle(lines)
    return [Prog(HEAD + "\n".join(l for l, _ in lines[i:i + per]) + "\n", "".join(e + "\n" for _, e in lines[i:i + per]), lines=[l for l, _ in lines[i:i + per]])
            for i in range(0, len(lines), per)], len(lines)

def check(ctx):
    recs = []
    for bins, uns, msgs, n, ls in ((BIN, UN, ["abs"], 2, L2), (BIN, [], [], 3, L1[:1] if ctx.quick else L1),
                                   (["or", "and", "==", "<", ">>", "-", "/", "**"], UN, ["abs"], 3, L1[1:2] if ctx.quick else L2)):
        r = tlc_bfs(ctx, "Group", dict(MaxOps=n, Bins=set(bins), Uns=set(uns), Msgs=set(msgs), Lits=ls, Mode="bfs"), workers=8,
                    invariants=["Emit"], timeout=ctx.n(200, 800))
        recs += r.records
    ctx.cov["exhaustive_expressions"] = len(recs)
    if ctx.quick and len(recs) > 9000: recs = ctx.rng.sample(recs, 9000)
    sims = tlc_sim(ctx, "Group", dict(MaxOps=7, Bins=set(BIN), Uns=set(UN), Msgs={"abs"}, Lits=L2, Mode="sim"), num=ctx.n(250, 6000), depth=8,
                   invariants=["EmitEnd"], timeout=ctx.n(200, 800))
    ctx.cov["random_expressions"] = len(sims)
    ctx.sample({"tokens": sims[0]["m"], "value": sims[0]["v"]})
    progs, n = programs(ctx, recs + sims)
    ctx.cov["texts_run"] = n
    check_programs(ctx, progs, what="grouping")
    check_programs(ctx, literal_programs(ctx, literals(ctx, 15, 900)), what="literals")
main(check, "P15")
