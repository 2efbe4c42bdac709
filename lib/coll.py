"""Turns behaviours of spec/Coll.tla into driver scripts with expected observations."""
from vlib import *

def fmt(v, heap, ids):
    """prints a spec value the way the driver's 'iso' does"""
    k = v[0]
    if k in "ntf": return k
    if k == "i": return "i%d" % v[1]
    if k == "s": return "s" + hexs(v[1])
    i = v[1]
    if i in ids: return "@%d" % ids[i]
    ids[i] = len(ids)
    o = heap[i - 1]
    pre = "&%d" % ids[i]
    if o["k"] == "L":
        return pre + "[" + ",".join(fmt(x, heap, ids) for x in o["v"]) + "]"
    return pre + "{" + ",".join(fmt(p[0], heap, ids) + ":" + fmt(p[1], heap, ids) for p in sorted(o["m"], key=lambda p: rank(p[0]))) + "}"

def rank(k):
    return ("nftis".index(k[0]), k[1] if len(k) > 1 else 0)

def iso(regs, heap):
    ids = {}
    return ";".join(fmt(v, heap, ids) for v in regs), ids

def lit(a):
    k = a[0]
    if k in "ntf": return k
    if k == "i": return "i%d" % a[1]
    if k == "s": return "s" + hexs(a[1])
    if k == "R": return "r%d" % a[1]
    raise ValueError(a)

CLOS = {"mapw": ("map", "cwrap"), "filt": ("filter", "cid"), "filt2": ("filter", "csecond"), "filti": ("filter", "cisint"),
        "reduce": ("reduce", "cpair n")}

def command(case, step, regs, heap):
    """appends the driver command(s) of one step"""
    o, r = step["o"], step["r"]
    op, a = o["op"], [None if x[0] == "g" else lit(x) for x in o["a"]]
    if op == "gc":
        g = o["a"][0][1]
        case.do("gc churn 300" if g == "churn" else "gc " + g); return
    if op == "set": case.do("set %d %s" % (o["d"], a[0])); return
    if op == "tup" or op == "tab": case.do(" ".join([op, str(o["d"])] + a)); return
    if op == "list": case.do("list %d %s" % (o["d"], a[0][1:])); return
    if r[0] in ("bag", "bagpairs", "pairs"):
        exp = None
        if regs is not None:
            ids = iso(regs, heap)[1]
            s = [fmt(x, heap, dict(ids)) for x in r[1]] if r[0] == "bag" else [fmt(x[0], heap, dict(ids)) + ":" + fmt(x[1], heap, dict(ids)) for x in r[1]]
            exp = ",".join(s if r[0] == "pairs" else sorted(s, key=lambda x: x.encode())) + "|"
        case.do("obs %s r%d %s" % ("seq" if r[0] == "pairs" else "bag", o["x"], " ".join([op] + a)), exp)
        return
    if op in CLOS: m, extra = CLOS[op]; a = [extra] + a
    else: m = op
    case.do(" ".join(["do", str(o["d"]), "r%d" % o["x"], m] + a))
    if op == "cmp": case.do("sign %d" % o["d"])

def bfs_case(rec, rng, nr, gc):
    c = Case()
    if gc:
        c.do("cbgc %d" % rng.choice((0, 0, 1, 1, 2)))
    n = len(rec["h"])
    for i, st in enumerate(rec["h"]):
        if gc and rng.random() < .25: c.do("gc " + rng.choice(("minor", "minor", "major")))
        last = i == n - 1
        command(c, st, rec["regs"] if last else None, rec["heap"])
    if gc and rng.random() < .5: c.do("gc " + rng.choice(("minor", "major")))
    c.do("iso %d" % nr, iso(rec["regs"], rec["heap"])[0])
    return c

def sim_case(hist, rng, nr):
    c = Case()
    c.do("cbgc %d" % rng.choice((0, 1, 1, 2)))
    for st in hist:
        command(c, st, st["regs"], st["heap"])
        c.do("iso %d" % nr, iso(st["regs"], st["heap"])[0])
    return c

# -- the same behaviours as programs -------------------------------------------
from prog import Prog, check_programs
PCLOS = {"mapw": "map((x): (x).)", "filt": "filter((x): x.)", "filt2": "filter((k, v): v.)", "filti": "filter((x): x integer?.)", "reduce": "reduce((a, x): (a, x)., nil)"}
def plit(a):
    k = a[0]
    return {"n": "nil", "t": "true", "f": "false"}.get(k) or (str(a[1]) if k == "i" else '"%s"' % "".join(map(chr, a[1])) if k == "s" else "r%d" % a[1])
def plain(v, heap, d):
    """has the value a finite text that does not depend on the order of a table?"""
    if v[0] != "r": return True
    if d == 0: return False
    o = heap[v[1] - 1]
    if o["k"] == "L": return len(o["v"]) <= 20 and all(plain(x, heap, d - 1) for x in o["v"])
    return len(o["m"]) <= 1 and all(plain(p[1], heap, d - 1) for p in o["m"])
def ptext(v, heap):
    k = v[0]
    if k != "r": return {"n": "nil", "t": "true", "f": "false"}.get(k) or (str(v[1]) if k == "i" else "".join(map(chr, v[1])))
    o = heap[v[1] - 1]
    return "(" + ", ".join(ptext(x, heap) for x in o["v"]) + ")" if o["k"] == "L" else "(" + ", ".join(ptext(p[0], heap) + "=" + ptext(p[1], heap) for p in o["m"]) + ")"
def look(e, v, heap, rng, out, depth=0):
    """statements printing what can be told of the value of expression e, and their output"""
    if plain(v, heap, 4): out.append(("(%s) say" % e, "(%s)" % ptext(v, heap))); return
    o = heap[v[1] - 1]
    par = rng.choice(("", "()"))
    if o["k"] == "L":
        n = len(o["v"]); out.append(("(%s length%s) say" % (e, par), "(%d)" % n))
        ks = [(i, o["v"][i]) for i in range(n)]
        if depth == 0: ks += [(-1, o["v"][-1]), (n, ["n"]), (-n - 1, ["n"])]
    else:
        out.append(("(%s length%s) say" % (e, par), "(%d)" % len(o["m"])))
        ks = [(plit(p[0]), p[1]) for p in o["m"]]
        have = [p[0] for p in o["m"]]
        if depth == 0: ks += [(plit(k), ["n"]) for k in (["i", 3], ["i", -77], ["s", [113]], ["n"]) if k not in have]
    if depth > 2: return
    for k, x in rng.sample(ks, min(len(ks), 8 if depth == 0 else 2)):
        look("%s(%s)" % (e, k) if depth == 0 and rng.random() < .5 else "%s at(%s)" % (e, k), x, heap, rng, out, depth + 1)
def program(h, rng, every=2):
    nr = len(h[0]["regs"])
    src, exp, lines = ["r%d = nil" % i for i in range(nr)], [], []
    pend = []
    for n, st in enumerate(h):
        o, r, regs, heap = st["o"], st["r"], st["regs"], st["heap"]
        op, d, a = o["op"], "r%d = " % o["d"], [plit(x) if x[0] != "g" else x for x in o["a"]]
        x = "r%d" % o["x"]
        if op == "gc": continue
        elif op == "set": s = [d + a[0]]
        elif op == "list": s = [d + "list(%s)" % a[0]]
        elif op == "tup": s = [d + "(%s)" % ", ".join(a)]
        elif op == "tab": s = [d + "(%s)" % ", ".join("%s=%s" % p for p in zip(a[::2], a[1::2]))] if a else [d + "(1=1)", "r%d remove(1)" % o["d"]]
        elif r[0] in ("bag", "bagpairs", "pairs"):
            if not all(plain(y, heap, 4) for e in r[1] for y in ((e,) if r[0] == "bag" else e)): continue
            if r[0] == "bag": s = ["q = ()", "%s %s each (v, k):\n  q push((v))\n." % (x, op)]; w = ["((%s))" % ptext(y, heap) for y in r[1]]
            else: s = ["q = ()", "%s each (v, k):\n  q push((v, k))\n." % x]; w = ["((%s, %s))" % (ptext(y[0], heap), ptext(y[1], heap)) for y in r[1]]
            src += s + ['"#%s" say' % ("" if r[0] == "pairs" else "<"), "q each (e):\n  (e) say\n.", '"#" say']
            if r[0] != "pairs": w.sort()
            exp += ["#" + ("" if r[0] == "pairs" else "<")] + w + ["#"]
            lines += [s[1]] * (len(w) + 2); continue
        elif op in PCLOS: s = [d + "%s %s" % (x, PCLOS[op])]
        elif op == "put" and rng.random() < .5: s = ["%s(%s) = %s" % (x, a[0], a[1]), d + x]
        elif op == "at" and rng.random() < .5: s = [d + "%s(%s)" % (x, a[0])]
        elif op == "slice" and o["a"][0] == ("n",) or op == "slice" and a[0] == "nil": s = [d + x + " clone()"]   # in programs nil is no valid start
        elif op == "cmp": s = [d + "%s cmp(%s)" % (x, a[0]), "if (%s0 > 0): %s1. elsif (%s0 < 0): %s-1." % ((d.replace(" = ", " + "), d) * 2)]
        else: s = [d + x + " " + op + ("(%s)" % ", ".join(a) if a else rng.choice(("", "()")))]
        src += s
        out = []
        for i in range(nr):
            if i == o["d"] or i == o["x"] and rng.random() < .6 or rng.random() < .15: look("r%d" % i, regs[i], heap, rng, out)
        if rng.random() < .3:
            i, j = rng.randrange(nr), rng.randrange(nr)
            same = regs[i] == regs[j]
            out.append(("(r%d == r%d, r%d != r%d) say" % (i, j, j, i), "(%s, %s)" % (("true", "false") if same else ("false", "true"))))
        src += [t for t, _ in out]; exp += [w for _, w in out]; lines += ["; ".join(s) + " then " + t for t, _ in out]
    return Prog("\n".join(src) + "\n", "".join(w + "\n" for w in exp), lines=lines)
def bags(ls):
    out, cur = [], None
    for l in ls:
        if l == "#<": cur = []; out.append(l)
        elif l == "#" and cur is not None: out += sorted(cur); cur = None; out.append(l)
        elif cur is not None: cur.append(l)
        else: out.append(l)
    return out + (cur or [])
def pjudge(p, st, out): return st == 0 and "\n".join(bags(out.decode("latin-1").split("\n"))).encode("latin-1") == p.exp
