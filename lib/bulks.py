"""Programs of Bulk.tla: heaps that grow and are collected on their own account."""
from vlib import *
from prog import *
PRE = """O = class (a): /a = a, /b = a string.
mkc = (a): b = a string
  (): if (a string == b): a. else: "bad"..
.
mkb = (a): s = a string
  s = (s, s, s, s, s, s, s, s, s, s) join("")
  (s, s, s, s, s, s, s, s, s, s) join("")
.
showi = (x): x print.
showd = (x): x print.
shows = (x): x print.
showo = (x): x /a print, "/" print, x /b print.
showc = (x): r = x()
  r print.
showb = (x): x length print, " " print, x slice(0, 7) print.
showp = (x): x print.
good = (x):
  k = x kind
  r = false
  if (k == 1 kind): r = x > 0.
  elsif (k == "" kind): r = x length > 0.
  elsif (k == O): r = x /a string == x /b.
  elsif (k == () kind): r = x(0) string == x(1).
  else: r = x() != "bad".
  r
.
goodl = (l):
  n = 0
  i = 0
  m = l length
  while (i < m):
    if (good(l(i))): n = n + 1.
    i = i + 1
  .
  n
.
goodt = (t, f, m):
  n = 0
  m times (j):
    if (good(t(KEY(f + j)))): n = n + 1.
  .
  n
.
"""
MAKE = {"i": "%s", "d": "(%s) + 0.5", "s": "(%s) string", "o": "O(%s)", "c": "mkc(%s)", "b": "mkb(%s)", "p": "(%s, %s string)"}
def make(k, e):
    t = MAKE[k].replace("(%s)", "%s") if k in "ds" else MAKE[k]
    return t.replace("%s", e)
def shown(k, n): return {"i": lambda: str(n), "d": lambda: "%d.5" % n, "s": lambda: str(n), "o": lambda: "%d/%d" % (n, n), "c": lambda: str(n), "p": lambda: "%d%d" % (n, n),
                         "b": lambda: "%d %s" % (100 * len(str(n)), (str(n) * 10)[:7])}[k]()
def program(log, strkeys, rng):
    src, exp = [], []
    key = "%s string" if strkeys else "%s"
    def say(*parts): src.extend(parts); src.append('"|" print')
    def loop(cnt, body):
        if rng.random() < .5: src.extend(["%d times (j):" % cnt] + ["  " + b for b in body] + ["."])
        else: src.extend(["j = 0", "while (j < %d):" % cnt] + ["  " + b for b in body] + ["  j = j + 1", "."])
    for e in log:
        op, v = e[0], e[1]
        if op == "new":
            src.append("%s = %s" % (v, {"list": "()", "table": '("only"=0)', "text": '"abcdefg"'}[e[2]]))
            if e[2] == "table": src.append('%s remove("only")' % v)
        elif op == "spin":
            body = ["s = j + %d" % e[3], "i = j % 10"] + ["%s(i) = s" % x for x in v]; loop(e[2], body)
        elif op == "let": src.append("%s = %s" % (v, e[2]))
        elif op == "join" and e[2] > 9: src.append("q = ()"); loop(e[2], ["q push(%s)" % v]); src.append('%s = q join("")' % v)
        elif op == "join": src.append("%s = (%s) join(\"\")" % (v, ", ".join([v] * e[2])))
        elif op == "junk": loop(e[1], ["s = j + %d" % e[3], "q = " + make(e[2], "s")])
        elif op == "grow": loop(e[2], ["s = j + %d" % e[4], "q = " + make(e[3], "s"), "%s push(q)" % v])
        elif op == "drop": loop(e[2], ["%s pop" % v])
        elif op == "over": loop(e[3], ["s = j + %d" % e[6], "q = " + make(e[5], "s"), "i = %d + j * %d" % (e[2], e[4]), "%s(i) = q" % v])
        elif op == "put": loop(e[3], ["s = j + %d" % e[5], "q = " + make(e[4], "s"), "i = j + %d" % e[2], "k = " + key % "i", "%s(k) = q" % v])
        elif op == "del": loop(e[3], ["i = j + %d" % e[2], "k = " + key % "i", "%s remove(k)" % v])
        elif op == "text":
            say("%s length print" % v); exp.append(str(e[2]))
            for i in e[3]:
                t = ("abcdefg" * 3)[i % 7:i % 7 + min(9, e[2] - i)]
                say("%s slice(%d, %d) print" % (v, i, i + len(t))); exp.append(t)
        else:
            say("%s length print" % v); exp.append(str(e[2]))
            if op == "list": say("goodl(%s) print" % v); exp.append(str(e[2]))
            else:
                for b in e[4]: say("goodt(%s, %d, BLOCK) print" % (v, b * BLOCK)); exp.append(str(BLOCK))
            for i, x in e[3]:
                src.append("i = %d" % i); src.append("q = %s(%s)" % (v, "i" if op == "list" else "i string" if strkeys else "i"))
                if x: say("show%s(q)" % x[0]); exp.append(shown(*x))
                else: say("q print"); exp.append("nil")
    return Prog((PRE + "\n".join(src) + "\n").replace("BLOCK", str(BLOCK)).replace(
        "    if (good(t(KEY(f + j))))", "    k = f + j\n" + ("    k = k string\n" if strkeys else "") + "    if (good(t(k)))"), "".join(x + "|" for x in exp))
BLOCK = 500
def check_bulk(ctx):
    hs = []
    L, T, X = "list", "table", "text"; some, big = {1, 100, 3000, 20000, 60000}, {50000, 200000}
    for nv, types, counts, facs, ml, mb, mt, d, num in ((6, (L,), {20, 1000, 6000, 20000}, {9}, 50000, 1, 1000, 18, ctx.n(2, 60)), (3, (L, L, T, X), some, {2, 3, 9, 40, 1000}, 200000, 40, 20000000, 14, ctx.n(5, 200)), (3, (L, L, T, X), big, {9, 1000}, 1000000, 60, 100000000, 10, ctx.n(1, 30)),
                                                    (3, (L, X, X), {3000, 10000, 30000}, {3, 1000, 5000}, 30000, 1, 110000000, 24, ctx.n(2, 60))):
        hs += tlc_sim(ctx, "Bulk", dict(Vars=set("uvwxyz"[:nv]), Types=list(types), Kinds=set("idsocbp"), Counts=counts, Factors=facs, Block=BLOCK, MaxLen=ml, MaxBlocks=mb, MaxText=mt, Depth=d), num=num, depth=d + 2, invariants=["Fresh", "Filled", "Emit"], properties=["Frame"], timeout=ctx.n(200, 800))
    ps = [program(h, i % 2, ctx.rng) for i, h in enumerate(hs)]
    ctx.cov["histories_of_large_heaps"] = len(ps); ctx.sample({"program": ps[0].src.decode()[len(PRE):][:900], "output": ps[0].exp.decode()[:300]})
    check_programs(ctx, ps, timeout=120000, what="large heap")
