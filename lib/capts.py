"""Programs of Capt.tla: closures over many variables."""
from vlib import *
from prog import *
def program(rec):
    f = rec["f"]; k = f["k"]; src = ["mk = (p):"]; exp = []
    src += ["  v%d = p + %d" % (i, i) for i in range(1, k + 1)]
    # closures may be made after only some of the variables were assigned: they are captured by name, so all come first
    for c, q in enumerate(f["cs"], 1):
        body = ["t%d = a + %d" % (j, j) for j in range(1, q["own"] + 1)]
        body += ["v%d = %s" % (v, {"add": "v%d + a" % v, "set": str(7 * w), "copy": "v%d" % w}[h]) for v, h, w in q["writes"]]
        vals = ["v%d" % v for v in q["reads"]] + ["t%d" % j for j in range(1, q["own"] + 1)]
        body.append("(" + ", ".join(vals) + ")" if len(vals) > 1 else "(%s,)" % vals[0] if vals else '"none"')
        for l in range(q["level"]): body = ["in%d = ():" % l] + ["  " + b for b in body] + [".", "in%d()" % l]
        src += ["  c%d = (a):" % c] + ["    " + b for b in body] + ["  ."]
    src += ["  (" + ", ".join("c%d" % i for i in range(1, len(f["cs"]) + 1)) + (",)" if len(f["cs"]) == 1 else ")"), "."]
    ni = 0
    for r in rec["l"]:
        op, out = r["op"], r["out"]
        if op[0] == "new": ni += 1; src.append("i%d = mk(%d)" % (ni, op[1]))
        else:
            src += ["g = i%d at(%d)" % (op[1], op[2] - 1), "g(%d) say" % op[3]]; exp.append("(" + ", ".join(map(str, out)) + ")" if out else "none")
    return Prog("\n".join(src) + "\n", "".join(e + "\n" for e in exp))
def check_capt(ctx):
    ps = []
    for mv, sz, q, t, d in ((30, {0, 1, 2, 3, 8, 11, 12, 13, 14, 15, 16, 17, 30}, 10, 400, 12), (150, {0, 1, 13, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 150}, 5, 200, 10)):
        ps += [program(h) for h in tlc_sim(ctx, "Capt", dict(Sizes=sz, MaxV=mv, Depth=d), num=ctx.n(q, t), depth=d + 2, invariants=["Emit"], properties=["Frame"], timeout=ctx.n(200, 800))]
    ctx.cov["histories_of_many_captured_variables"] = len(ps); ctx.sample({"program": ps[0].src.decode()[:900], "output": ps[0].exp.decode()[:300]})
    check_programs(ctx, ps, what="closures over many variables")
    check_programs(ctx, ctx.rng.sample(ps, min(len(ps), ctx.n(40, 800))), gc=(1, 13), what="closures over many variables")
