"""Behaviours of spec/Str.tla as driver scripts and as potion programs."""
from vlib import *
from prog import Prog

def utf8(cps): return "".join(map(chr, cps)).encode("utf-8")
def lit(a):
    if a[0] == "R": return "r%d" % a[1]
    if a[0] == "i": return "i%d" % a[1]
    if a[0] == "s": return "s" + utf8(a[1]).hex()
    return a[0]

def fmt(v, heap, ids):
    k = v[0]
    if k == "n": return "n"
    if k == "i": return "i%d" % v[1]
    if k == "s": return "s" + utf8(v[1]).hex()
    if v[1] in ids: return "@%d" % ids[v[1]]
    ids[v[1]] = len(ids)
    o = heap[v[1] - 1]; pre = "&%d" % ids[v[1]]
    return pre + "b" + bytes(o["v"]).hex() if k == "b" else pre + "[" + ",".join(fmt(x, heap, ids) for x in o["v"]) + "]"
def iso(regs, heap):
    ids = {}
    return ";".join(fmt(v, heap, ids) for v in regs)
def strings(regs, heap):
    """the texts reachable, in depth first order"""
    out, seen = [], set()
    def go(v):
        if v[0] == "s": out.append(tuple(v[1]))
        elif v[0] == "l" and v[1] not in seen:
            seen.add(v[1])
            for x in heap[v[1] - 1]["v"]: go(x)
    for v in regs: go(v)
    return out
def classes(regs, heap):
    first = {}
    return " ".join(str(first.setdefault(t, i)) for i, t in enumerate(strings(regs, heap)))

def command(c, st):
    o, d, a = st["o"], st["d"], [lit(x) if x[0] != "g" else x[1] for x in st["a"]]
    if o == "gc": c.do("gc churn 300" if a[0] == "churn" else "gc " + a[0])
    elif o in ("lit", "num", "mov"): c.do("set %d %s" % (d, a[0]))
    elif o == "tup": c.do("tup %d %s" % (d, " ".join(a)))
    elif o == "call": c.do("call %d %s %s" % (d, a[0], a[1]))
    else:
        c.do("do %d %s %s %s" % (d, a[0], o, " ".join(a[1:])))
        if o == "cmp": c.do("sign %d" % d)

def bfs_case(r, rng, gc):
    c = Case()
    for st in r["h"]:
        command(c, st)
        if gc and rng.random() < .4: c.do("gc " + rng.choice(("minor", "minor", "major")))
    c.do("iso %d" % len(r["regs"]), iso(r["regs"], r["heap"]))
    c.do("intern %d" % len(r["regs"]), classes(r["regs"], r["heap"]))
    return c
def sim_case(h, nr):
    c = Case()
    for st in h:
        command(c, st)
        c.do("iso %d" % nr, iso(st["regs"], st["heap"]))
        c.do("intern %d" % nr, classes(st["regs"], st["heap"]))
    return c

# -- the same behaviours as programs -------------------------------------------
def quote(cps, rng):
    out = '"'
    for c in cps:
        if c in (34, 92): out += "\\" + chr(c)
        elif c == 10: out += "\\n"
        elif c == 127 or c > 127 and c < 65536 and rng.random() < .5: out += "\\u%04X" % c
        elif c > 65535 and rng.random() < .5: out += "\\U{%X}" % c
        else: out += chr(c)
    return out + '"'
def arg(a, rng): return "r%d" % a[1] if a[0] == "R" else str(a[1]) if a[0] == "i" else quote(a[1], rng) if a[0] == "s" else "nil"
def shown(v, heap):
    k = v[0]
    if k == "n": return b"nil"
    if k == "i": return b"%d" % v[1]
    if k == "s": return utf8(v[1])
    o = heap[v[1] - 1]["v"]
    return bytes(o) if k == "b" else b"(" + b", ".join(shown(x, heap) for x in o) + b")"
def program(h, nr, rng, eq=True):
    """prints all registers, and which strings are equal, after every step"""
    src, exp = ["r%d = nil" % i for i in range(nr)], b""
    src.append("t = (1=1)")
    for n, st in enumerate(h):
        o, d, a = st["o"], st["d"], st["a"]
        if o == "gc": continue
        r, x = "r%d = " % d, arg(a[0], rng)
        y = [arg(b, rng) for b in a[1:]]
        if o in ("lit", "num", "mov"): src.append(r + x)
        elif o == "tup": src.append(r + "(%s, %s)" % (x, y[0]))
        elif o == "+": src.append(r + x + " + " + y[0])
        elif o == "call": src.append(r + "%s(%s)" % (x, y[0]))
        elif o == "cmp": src.append(r + "%s cmp(%s)" % (x, y[0])); src.append("if (r%d > 0): r%d = 1. elsif (r%d < 0): r%d = -1." % (d, d, d, d))
        else: src.append(r + x + " " + o + ("(%s)" % ", ".join(y) if y else ""))
        regs, heap = st["regs"], st["heap"]
        src.append("(%s) say" % ", ".join("r%d" % i for i in range(nr)))
        exp += b"(" + b", ".join(shown(v, heap) for v in regs) + b")\n"
        if eq:
            ss = [i for i in range(nr) if regs[i][0] == "s"]
            for i in ss[:3]:
                for j in ss:
                    if i < j:
                        src.append("(r%d == r%d, r%d != r%d) say" % (i, j, i, j)); e = regs[i][1] == regs[j][1]
                        exp += b"(true, false)\n" if e else b"(false, true)\n"
                if n % 3 == 0:
                    src.append("t put(r%d, %d)" % (i, n)); e = sorted((j, n if regs[j][1] == regs[i][1] else -1) for j in ss)
                    js = [j for j, v in e if v == n]
                    src.append("(%s) say" % ", ".join("t at(r%d)" % j for j in js)); exp += b"(" + b", ".join([b"%d" % n] * len(js)) + b")\n"
    return Prog(("\n".join(src) + "\n"), exp)
