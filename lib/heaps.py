"""Histories of Heap.tla as potion programs."""
from prog import *
PRE = '''Str = (i): "str" + i string + "of".
Dbl = (i): i + 0.5.
Cls = class (x, y, z, n):
  /x = x
  /y = y
  /z = z
  /n = n
.
Clo = (a, b, c, n):
  (i, put, v):
    if (put):
      if (i == 1): a = v.
      elsif (i == 2): b = v.
      else: c = v.
      v
    . elsif (i == 1): a
    . elsif (i == 2): b
    . elsif (i == 3): c
    . else: n.
  .
.
gl = (o, i): o at(i).
tl = (o): o at(0).
gt = (o, i): o at("k" + i string).
tt = (o): o at("k").
o1 = (o): o /x.
o2 = (o): o /y.
o3 = (o): o /z.
to = (o): o /n.
gc = (o, i): o(i, false, nil).
tc = (o): o(4, false, nil).
pc = (o, i, v): o(i, true, v).
junk = (n): n times (i): ("junk" + i string, i + 0.25) length..
'''
F = "xyz"
GV = ["W", "Z"]         # variables kept in a global list
def rd(v): return "gl(Gl, %d)" % GV.index(v) if v in GV else v
def wr(v, e): return "Gl put(%d, %s)" % (GV.index(v), e) if v in GV else "%s = %s" % (v, e)
def tag(k, e): return "t%s(%s)" % (k, e)
def path(v, w):
    e = rd(v)
    for k, i in w: e = "o%d(%s)" % (i, e) if k == "o" else "g%s(%s, %d)" % (k, e, i)
    return e
def val(e): return "nil" if e[0] == "n" else "Str(%d)" % e[1] if e[0] == "s" else "Dbl(%d)" % e[1] if e[0] == "d" else rd(e[1])
def put(base, k, i, e, rng):
    if k == "l": return "%s put(%d, %s)" % (base, i, e)
    if k == "t":
        if rng.random() < .5: return '%s put("k%d", %s)' % (base, i, e)
        return '%s put("k" + %d string, %s)' % (base, i, e)
    if k == "o": return "%s /%s = %s" % (base, F[i - 1], e)
    return "pc(%s, %d, %s)" % (base, i, e)
def new(o, rng):
    _, v, k, es, n = o
    if k == "l":
        if rng.random() < .5 or ["v", v] in [list(e) for e in es] or v in GV: return [wr(v, "(%d, %s)" % (n, ", ".join(map(val, es))))]
        return ["%s = (%d)" % (v, n)] + ["%s push(%s)" % (v, val(e)) for e in es]
    es = list(map(val, es))
    if k == "t": return [wr(v, "(k=%d, %s)" % (n, ", ".join("k%d=%s" % (i + 1, e) for i, e in enumerate(es))))]
    return [wr(v, "%s(%s, %d)" % ("Cls" if k == "o" else "Clo", ", ".join(es), n))]
def putp(base, k, i, e, rng):
    """a store into what an expression gives: /field = needs a variable"""
    return ["tmp = " + base, put("tmp", k, i, e, rng)] if "(" in base and k != "c" else [put(base, k, i, e, rng)]
def op(o, rng):
    k = o[0]
    if k == "let": return [wr(o[1], val(o[2]))]
    if k == "new": return new(o, rng)
    if k == "put": return putp(rd(o[1]), o[4], o[2], val(o[3]), rng)
    if k == "push":
        if o[4] == "l": return ["%s push(%s)" % (rd(o[1]), val(o[3]))]
        return putp(rd(o[1]), "t", o[2], val(o[3]), rng)
    if k == "load": return [wr(o[1], path(o[2], o[3]))]
    if k == "putat": return putp(path(o[1], o[2]), o[5], o[3], val(o[4]), rng)
    if k == "junk": return ["junk(%d)" % o[1]]
def expected(s):
    if s[0] == "n": return "nil"
    if s[0] == "s": return "str%dof" % s[1]
    if s[0] == "d": return "%d.5" % s[1]
    return str(s[1])
def program(h, rng, names, calls=.3):
    """names: the variables; calls: how often a step is done inside a function or a block"""
    src = [v + " = nil" for v in names if v not in GV] + ["tmp = nil", "Gl = (nil, nil)"]; exp = []; lines = []; n = 0
    for st in h:
        o = st["op"]
        if o[0] == "ask":
            ls, ss = st["a"]
            qs = []
            for v, w, s in ls:
                e = path(v, w); qs.append(tag(s[2], e) if s[0] == "p" else e)
            for v, w, x, y, eq, nodes in ss:
                if nodes or not eq: qs.append("%s == %s" % (path(v, w), path(x, y)))
            src.append("(%s) say" % ", ".join(qs))
            exp.append("(" + ", ".join([expected(s) for _, _, s in ls] + [("true" if eq else "false") for *_, eq, nodes in ss if nodes or not eq]) + ")")
            lines.append(src[-1]); continue
        ls = op(o, rng)
        if rng.random() < calls:
            n += 1; c = rng.randint(1, 3)
            body = ["  " + l for l in ls]
            if c == 1: ls = ["h%d = ():" % n] + body + [".", "h%d()" % n]
            elif c == 2: ls = ["1 times (i%d):" % n] + body + ["."]
            else: ls = ["h%d = ():" % n, "  ():"] + ["  " + b for b in body] + ["  .", ".", "h%d()()" % n]
        src += ls
    return Prog(PRE + "\n".join(src) + "\n", "\n".join(exp) + "\n", lines=lines)
