"""Behaviours of Obj.tla as potion programs."""
from prog import *
BUILTIN = ["Lobby", "Object", "Number", "String", "Tuple", "NilKind", "Mixin"]
PRE = 'cnt = 0\ntt = ("a", "b")\n' + "".join(
    "f_%s = (o): o %s.\nF_%s = (o): o %s.\nq_%s = (o): o ?%s.\ng_%s = (o): o %s().\n" % (m, m, m, m, m, m, m, m) for m in ("m1", "m2", "m3")) + \
    "fs = (o, v): o s(v).\nsend = (o, n): o send(n).\n"
def val(e):
    k = e[0]
    return {"n": "nil", "s": '"str"', "t": "tt"}.get(k) or str(e[1])
def body(b):
    k = b[0]
    if k == "const": return "(): %d." % b[1]
    if k == "get": return "(): (%d, /%s)." % (b[2], b[1])
    if k == "self": return "(): (%s%s, %d)." % (b[1], "()" * (b[2] % 2), b[2])
    if k == "two": return "(): (%s, %s)." % (b[1], b[2])
    if k == "field": return "(): /%s %s." % (b[1], b[2])
    if k == "count": return "():\n  cnt = cnt + 1\n  cnt\n."
    if k == "put": return "():\n  /%s = %d\n  %d\n." % (b[1], b[2], b[2])
    if k == "set": return "(v):\n  /%s = v\n  v\n." % b[1]
    if k == "arg": return "(o): (o %s, %d)." % (b[1], b[2])
def question(q):
    k = q[0]
    if k == "cnt": return "cnt"
    v = val(q[1])
    if k == "send":
        f = q[3]
        if q[1][0] == "c" and f in (3, 4): f = 2
        return ("%s %s" % (v, q[2]), "f_%s(%s)" % (q[2], v), '%s send("%s")' % (v, q[2]), 'send(%s, "%s")' % (v, q[2]), "F_%s(%s)" % (q[2], v), "%s %s()" % (v, q[2]), "g_%s(%s)" % (q[2], v))[f - 1]
    if k == "sendarg": return ("%s s(%s)" % (v, val(q[2])), "fs(%s, %s)" % (v, val(q[2])))[q[3] - 1]
    if k == "get": return "%s /%s" % (v, q[2])
    if k == "get2": return "%s /%s /%s" % (v, q[2], q[3])
    if k == "has": return ("q_%s(%s)" % (q[2], v), '%s can("%s")' % (v, q[2]))[q[3] - 1]
    if k == "hasf": return "%s ?/%s" % (v, q[2])
    if k == "qsend": return "%s ?%s()" % (v, q[2])
    if k == "qarg": return "%s ?s(%s)" % (v, val(q[2]))
    if k == "isa": return ("%s kind == %s", "%s isa?(%s)")[q[3] - 1] % (v, q[2])
    if k == "sub": return "%s subclass?(%s)" % (v, q[2])
    if k == "same": return "%s == %s" % (v, val(q[2]))
    if k == "samef": return "%s /%s == %s" % (v, q[2], val(q[3]))
def show(v):
    k = v[0]
    return {"n": "nil", "s": "str", "t": "(a, b)", "o": "<obj>"}.get(k) or (("true" if v[1] else "false") if k == "b" else str(v[1]) if k == "i" else "(" + ", ".join(map(show, v[1])) + ")")
def definition(owner, m, b, rng):
    if b[0] == "const" and rng.random() < .4: return "%s %s = %d" % (owner, m, b[1])
    t = body(b)
    return '%s def("%s", %s)' % (owner, m, t) if rng.random() < .3 and "\n" not in t else "%s %s = %s" % (owner, m, t)
def op(o, rng):
    k = o[0]
    if k == "class":
        p = "" if o[2] == "Object" else o[2] + " "
        if not o[3]: return "%s = %sclass" % (o[1], p)
        c = o[3][0]
        e = {"p": lambda x: "p%d" % x, "k": str, "m": str}
        return "%s = %sclass (%s):\n%s\n." % (o[1], p, ", ".join("p%d" % (i + 1) for i in range(c["np"])), "\n".join("  cnt = cnt + 1" if f == "#" else "  /%s = %s" % (f, e[x[0]](x[1])) for f, x in c["sets"]))
    if k == "def":
        w = o[1]
        return definition(BUILTIN[w[1] - 1] if w[0] == "b" else w[1] if w[0] == "c" else w[1] + " kind", o[2], o[3], rng)
    if k == "meta": return "%s meta %s = %s" % (o[1], o[2], body(o[3]) if o[3][0] != "const" or rng.random() < .5 else o[3][1])
    if k == "new": return "%s = %s(%s)" % (o[1], o[2], ", ".join(map(val, o[3])))
    if k == "let": return "%s = %s" % (o[1], val(o[2]))
    if k == "clet": return "%s = %s" % (o[1], o[2])
    if k == "set": return "%s /%s = %s" % (o[1], o[2], val(o[3]))
    if k == "set2": return "%s /%s /%s = %s" % (o[1], o[2], o[3], val(o[4]))
    if k == "ask": return "(%s) say" % ", ".join(map(question, o[1]))
def program(h, rng, setup="", fn=False):
    """fn: the whole history inside a function called once"""
    src, exp, lines = PRE + setup, "", []
    for r in h:
        if r["op"][0] == "end": continue
        t = op(r["op"], rng)
        src += t + "\n"
        if r["out"][0] != "-":
            exp += show(r["out"]) + "\n"; lines.append(t)
    return Prog(src, exp, lines=lines)
import re
ADDR = re.compile(rb"<(?:object|\w+ [0-9a-f]+)>")
def judge(p, st, out): return st == 0 and ADDR.sub(b"<obj>", out) == p.exp
