"""Programs of Cont.tla as potion source."""
from prog import *
def var(x, d): return x if d == 0 else ("i%d" if x == "a" else "y%d") % d
def ex(e, d): return str(e[1]) if e[0] == "k" else var(e[1], d) if e[0] == "v" else "z" if e[1] == 4 else "n(%d)" % (e[1] - 1)
class R:
    def __init__(self, rng): self.rng, self.d = rng, 0
    def block(self, ss, ind, d): return [l for s in ss for l in self.stm(s, ind, d)]
    def stm(self, s, ind, d):
        I, k, v = "  " * ind, s[0], lambda x: var(x, d)
        if k == "inc": return [I + "%s = %s + %d" % (v(s[1]), v(s[1]), s[2])]
        if k == "cell": return [I + ("bump()" if s[1] == 4 else "n put(%d, n(%d) + 1)" % (s[1] - 1, s[1] - 1))]
        if k == "load": return [I + "%s = %s" % (v(s[1]), ex(["c", s[2]], d))]
        if k == "out": return [I + "(%d, %s, %s, n, z) say" % (s[1], v("a"), v("b"))]
        if k == "here":
            if self.rng.random() < .5: return [I + "k = here", I + "s put(%d, k)" % (s[1] - 1)]
            return [I + "s put(%d, here)" % (s[1] - 1)]
        if k == "go":
            i2 = I + "  "
            return [I + "if (n(0) < FUEL):", i2 + "n put(0, n(0) + 1)", i2 + "if (s(%d)):" % (s[1] - 1), i2 + "  c = s(%d)" % (s[1] - 1), i2 + "  c()", i2 + ".", I + "."]
        if k == "call": return [I + "%s = f%d(%s)" % (v(s[1]), s[2], ex(s[3], d))]
        if k == "sum": return [I + "%s = f%d(%s) + f%d(%s)" % (v(s[1]), s[2], ex(s[3], d), s[4], ex(s[5], d))]
        if k == "if": return [I + "if (%s < %d):" % (ex(s[1], d), s[2])] + self.block(s[3], ind + 1, d) + [I + ".", I + "else:"] + self.block(s[4], ind + 1, d) + [I + "."]
        if k == "while": return [I + "while (%s < %d):" % (v(s[1]), s[2]), I + "  %s = %s + 1" % (v(s[1]), v(s[1]))] + self.block(s[3], ind + 1, d) + [I + "."]
        if k in ("times", "each", "to"):
            self.d += 1; e = self.d
            h = {"times": "%d times" % len(s[1]), "each": "(%s) each" % ", ".join(map(str, s[1])), "to": "%d to (%d)" % (s[1][0], s[1][-1])}[k]
            return [I + "%s (%s):" % (h, var("a", e)), I + "  %s = 0" % var("b", e)] + self.block(s[2], ind + 1, e) + [I + "."]
        raise Exception(s)
def program(rec, rng, fuel, wrap):
    r = R(rng)
    src = ["n = (0, 0, 0)", "s = (nil, nil, nil)", "z = 0", "bump = (): z = z + 1."]
    p = rec["p"]
    for f in range(len(p), 1, -1):
        src += ["f%d = (a):" % f, "  b = 0"] + r.block(p[f - 1], 1, 0) + ["  a + b", "."]
    if wrap: src += ["main = (a):", "  b = 0"] + r.block(p[0], 1, 0) + ["  a + b", ".", "main(0)"]
    else: src += ["a = 0", "b = 0"] + r.block(p[0], 0, 0)
    src = "\n".join(src).replace("FUEL", str(fuel)) + "\n"
    exp = "".join("(%d, %d, %d, (%d, %d, %d), %d)\n" % tuple(o[:3] + o[3]) for o in rec["out"])
    return Prog(src, exp)
