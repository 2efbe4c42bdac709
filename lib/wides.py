"""Programs of Wide.tla: classes with many fields and methods."""
from vlib import *
from prog import *
STEMS = ["f", "fa", "x", "value", "v", "aa", "name", "z9", "is", "q"]
def program(log):
    src, exp = ["i = 0"], []
    fn = lambda k: STEMS[k % 10] + str(k); mn = lambda k: "m" + STEMS[k % 7] + str(k)
    val = lambda v: "nil" if v[0] == "n" else str(v[1]) if v[0] == "i" else "(" + ", ".join(map(val, v[1])) + ")"
    nc = no = 0
    for r in log:
        op, out = r["op"], r["out"]
        if op[0] == "fill":
            if op[1] == 1: src.append("F = class: /h1 = 1.")
            elif op[1]: src += ["i = 0", "while (i < %d):" % op[1], "  F = class: /h1 = i, /h2 = 2.", "  F mh = (): 3.", "  i = i + 1", "."]
        elif op[0] == "class":
            nc += 1; p = "C%d " % op[1] if op[1] else ""
            src.append("C%d = %sclass" % (nc, p) + (": " + ", ".join("/%s = %d" % (fn(f), nc * 1000 + f) for f in op[2]) + "." if op[2] else ""))
            src += ["C%d %s = (): (%d, /%s)." % (nc, mn(m), nc * 1000 + m, fn(f)) for m, f in op[3]]
        elif op[0] == "new": no += 1; src.append("o%d = C%d()" % (no, op[1]))
        elif op[0] == "set": src.append("o%d /%s = %s" % (op[1], fn(op[2]), val(op[3])))
        elif op[0] == "def": src.append("C%d %s = (): (%d, /%s)." % (op[1], mn(op[2]), op[1] * 1000 + op[2], fn(op[3])))
        else:
            src.append("(" + ", ".join("o%d /%s" % (q[1], fn(q[2])) if q[0] == "get" else "o%d %s" % (q[1], mn(q[2])) for q in op[1]) + ") say"); exp.append("(" + ", ".join(map(val, out)) + ")")
    return Prog("\n".join(src) + "\n", "".join(e + "\n" for e in exp))
def check_wide(ctx):
    ps = []
    for c, q, t, d in ((dict(NF=12, NM=6, Sizes={0, 1, 2, 3, 8}, Fills={0, 1, 4060, 4070}), 6, 150, 60), (dict(NF=330, NM=20, Sizes={0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}, Fills={0, 0, 5000}), 4, 100, 40),
                       (dict(NF=10, NM=330, Sizes={0, 1, 3, 31, 127, 128, 129, 255, 256, 300}, Fills={0, 4073, 9000}), 3, 60, 40)):
        ps += [program(h) for h in tlc_sim(ctx, "Wide", dict(c, Depth=d), num=ctx.n(q, t), depth=d + 2, invariants=["Sane", "Emit"], timeout=ctx.n(200, 800))]
    ctx.cov["histories_of_wide_classes"] = len(ps); ctx.sample({"program": ps[0].src.decode()[:900], "output": ps[0].exp.decode()[:300]})
    check_programs(ctx, ps, what="classes with many fields and methods")
    check_programs(ctx, ctx.rng.sample(ps, min(len(ps), ctx.n(24, 400))), gc=(11, 37), modes=("-B", "-X"), what="classes with many fields and methods")
