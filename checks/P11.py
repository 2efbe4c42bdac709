import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *
# the values in ascending order, and what the comparisons look at
INTS = ["-4611686018427387903", "-2147483649", "-3", "0", "1", "2", "7", "4611686018427387903"]
STRS = ["!", "Z", "a", "aa", "ab", "b", "zz", "\u00e4"]
def rank(xs): o = sorted(set(xs)); return [o.index(x) + 1 for x in xs]
CMP = {"i": [("x cmp(y)", [int(v) for v in INTS]), ("y cmp(x)", [-int(v) for v in INTS]), ("x <=> y", [int(v) for v in INTS]), ("x abs cmp(y abs)", [abs(int(v)) for v in INTS]),
             ("if (x < y): -1. elsif (x > y): 1. else: 0.", [int(v) for v in INTS]), ("0", [0] * 8)],
       "s": [("x cmp(y)", [v.encode() for v in STRS]), ("y cmp(x)", [tuple(-b for b in v.encode()) + (1,) for v in STRS]), ("x length cmp(y length)", [len(v) for v in STRS])]}
class P(Prog):
    __slots__ = ("want",)
def items(line):
    """the lists of a printed line '((..), (..))'"""
    if not (line.startswith("((") and line.endswith("))")): return None
    return [p.split(", ") if p else [] for p in line[2:-2].split("), (")]
def judge(p, st, out):
    ls = out.decode("utf-8", "replace").split("\n")
    bad = [i for i, (w, l) in enumerate(zip(p.want, ls)) if not w(l)]
    p.exp = "\n".join("<a sorted permutation>" if i in bad else l for i, l in enumerate(ls[:len(p.want)])).encode() + b"\n"      # for the report
    return st == 0 and len(ls) == len(p.want) + 1 and not bad

def check(ctx):
    keys = {k: [rank(ks) for _, ks in v] for k, v in CMP.items()}
    r = tlc_bfs(ctx, "Sort", dict(NV=3, MaxLen=ctx.n(4, 5), Mode="swap", Lens={1}, Keys=[[1, 2, 3], [3, 2, 1], [1, 2, 1]]), invariants=["Perm", "Done", "Sound"],
                properties=["Terminates"], spec="SwapSpec", workers=8)
    recs = {}
    r = tlc_bfs(ctx, "Sort", dict(NV=4, MaxLen=ctx.n(5, 6), Mode="bfs", Lens={1}, Keys=[]), invariants=["Emit"], workers=8)
    small = r.records
    ctx.cov["exhaustive_lists"] = len(small)
    sims = {}
    lens = set(range(0, 30)) | ({40, 63, 64, 65, 100, 150} if ctx.quick else set(range(30, 200, 7)))
    for k in "is":
        sims[k] = tlc_sim(ctx, "Sort", dict(NV=8, MaxLen=0, Mode="sim", Lens=lens, Keys=keys[k]), num=ctx.n(2, 40), depth=41, invariants=["Emit"], timeout=ctx.n(200, 800))
    ctx.cov["random_lists"] = sum(map(len, sims.values()))
    rows = []        # (source, predicate on the printed line)
    def text(k, l, vals): return "(" + ", ".join(vals[v - 1] if k == "i" else '"%s"' % vals[v - 1] for v in l) + ")"
    def add(k, l, asc, keyseqs, vals, key):
        src = "l = " + text(k, l, vals) + "\n"
        L, A = [vals[v - 1] for v in l], [vals[v - 1] for v in asc]
        def exact(method, want, after):
            return (src + "m = l %s\n(m, l) say\n" % method, lambda s: items(s) == [want, after])
        D = A[::-1]
        if k == "i":
            rows.append(exact("sort(true)", A, L)); rows.append(exact("sort(false)", D, L))
            rows.append(exact("ins_sort(true)", A, A)); rows.append(exact("ins_sort(false)", D, D))
        for i, (body, _) in enumerate(CMP[k]):
            if len(l) > 20 and ctx.rng.random() < .5: continue
            for m in ("sort", "ins_sort"):
                def ok(s, i=i, m=m):
                    x = items(s)
                    if not x or len(x) != 2 or x[1] != (L if m == "sort" else x[0]) or sorted(x[0]) != sorted(L): return False
                    return keyseqs is None or [key[i][vals.index(v)] for v in x[0]] == keyseqs[i]
                rows.append((src + "m = l %s((x, y): %s.)\n(m, l) say\n" % (m, body), ok))
        # without argument: some order, in which every element is found
        def found(s):
            x = items(s)
            return bool(x) and len(x) == 3 and sorted(x[0]) == sorted(L) and x[1] == x[0] and x[2] == L
        rows.append((src + "m = l sort\nk = ()\nm each (x): k push(m at(m bsearch(x))).\n(m, k, l) say\n", found))
    for rec in small:
        vals = sorted(ctx.rng.sample(INTS, 4), key=int)
        key = [rank([ks[INTS.index(v)] for v in vals]) for _, ks in CMP["i"]]
        ks = [sorted(key[i][v - 1] for v in rec["l"]) for i in range(len(key))]
        add("i", rec["l"], rec["asc"], ks, vals, key)
    for k, rs in sims.items():
        for rec in rs: add(k, rec["l"], rec["asc"], rec["keys"], INTS if k == "i" else STRS, keys[k])
    ctx.cov["sorts"] = len(rows)
    ctx.sample({"sort": rows[len(rows) // 2][0]})
    ctx.rng.shuffle(rows)
    progs = []
    for i in range(0, len(rows), 60):
        part = rows[i:i + 60]
        p = P("".join(s for s, _ in part), "", lines=[s for s, _ in part]); p.want = [w for _, w in part]
        progs.append(p)
    check_programs(ctx, progs, judge=judge, what="sort")
    check_programs(ctx, ctx.rng.sample(progs, min(len(progs), ctx.n(40, 1000))), modes=("-B", "-X"), gc=(3,), judge=judge, what="sort")
    # long lists: runs, equal elements
    big = []
    for n, f in ((3000, "i * 7919 % 1009"), (90000, "5"), (ctx.n(20000, 300000), "i"), (ctx.n(20000, 300000), "i % 50000 * 31")):
        src = "l = ()\n%d times (i): l push(%s).\nm = l sort(true)\nc = 0\ni = 1\nwhile (i < %d): if (m(i - 1) > m(i)): c = c + 1., i = i + 1.\n(m length, c) say\n" % (n, f, n)
        big.append(Prog(src, "(%d, 0)\n" % n))
    check_programs(ctx, big, what="long list", timeout=200000)
main(check, "P11")
