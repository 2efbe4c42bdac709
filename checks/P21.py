import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *

WALK = """walk = (l, d):
  i = 0
  while (i < l length):
    k = l(i)
    n = 0
    if (k licks): n = k licks length.
    v = nil
    if (k attr): v = k attr at("k").
    (d, k name, k text, n, v, k attr) say
    if (k licks): walk(k licks, d + 1).
    i = i + 1
  .
.
"""
def attr(src, k, all_, plain=True): return dict(src=src, k=k, show=all_, all=all_, psrc=all_[1:-1], plain=plain)
A1 = attr("k=1", "1", "(k=1)"); A2 = attr("k=x", "5", "(k=5)"); A3 = attr("k='q r'", "q r", "(k=q r)", False)
A4 = attr("k=x + 2", "7", "(k=7)"); A5 = attr("j=y", "nil", "(j=why)", False); A6 = attr("k=(1, 2)", "(1, 2)", "(k=(1, 2))")
# TLC names for characters outside ASCII
def uni(s): return s.replace("~U", "ł").replace("~E", "é → 😀")
def program(recs, ctx):
    """several notations in one program, at top level or in a function with x, y as parameters"""
    infn = ctx.rng.random() < .5
    src, exp = WALK, []
    body, ind = [], "  " if infn else ""
    for r in recs:
        ts = r["src"]
        if ctx.rng.random() < .3: ts = [{", ": ",\n" + ind + "  ", " [": " [\n    "}.get(t, t) for t in ts]
        s = "[" + "".join(ts) + "]"
        body += ["t = " + s, "t say", "walk(t, 0)"]
        w = [r["show"]] + r["walk"]; exp += w
        if r["plain"]: body += ["u = t string eval", "u say", "walk(u, 0)"]; exp += w
    if infn: src += "f = (x, y):\n" + "".join("  %s\n" % l for l in body) + "  0\n.\nf(5, 'why')\n"
    else: src += "x = 5\ny = 'why'\n" + "\n".join(body) + "\n"
    return Prog(uni(src), uni("".join(l + "\n" for l in exp)))
def check(ctx):
    small = dict(Mode="bfs", MaxToks=ctx.n(6, 7), MaxDeep=3, Names={"p", "html"}, Quoted={"a, b] (c"}, Words={"two words"}, Ints={7}, Attrs=[A1, A5])
    big = dict(Mode="sim", MaxDeep=6, Names={"p", "q", "html", "long_name2", "ready?", "n~U"}, Quoted={"", "x", "a, b]", "[q]", "(k=1)", "~E", "x" * 300},
               Words={"word", "two words", "w1 w2  w3"}, Ints={0, -3, 12345678, 4}, Attrs=[A1, A2, A3, A4, A5, A6])
    def attrs(d): return {**d, "Attrs": ("tla", "{" + ", ".join(tla(a) for a in d["Attrs"]) + "}")}
    def sim(i): return tlc_sim(ctx, "Lick", attrs({**big, "MaxToks": (14, 40, 120)[i]}), num=ctx.n(25, 500), depth=130, invariants=["Denotes", "ReadsBack", "Emit"], procs=3, timeout=800)
    with ThreadPoolExecutor(4) as ex:
        a = ex.submit(lambda: tlc_bfs(ctx, "Lick", attrs(small), invariants=["Denotes", "ReadsBack", "Emit"], workers=4, heap="4g", timeout=800).records)
        sims = [ex.submit(sim, i) for i in range(3)]
        all_ = a.result(); rnd = [f.result() for f in sims]
    k = 12
    ps = [program(all_[i:i + k], ctx) for i in range(0, len(all_), k)]
    ctx.cov["notations"] = len(all_); ctx.cov["random_notations"] = sum(map(len, rnd))
    ctx.sample({"program": ps[-1].src.decode()[-700:], "output": ps[-1].exp.decode()[-300:]})
    check_programs(ctx, ps, gc=(7,), what="notations")
    qs = [program(r[i:i + n], ctx) for r, n in zip(rnd, (6, 3, 1)) for i in range(0, len(r), n)]
    check_programs(ctx, qs, gc=(1, 5), pnb="both", what="random notations")
if __name__ == "__main__": main(check, "P21")
