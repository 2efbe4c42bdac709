import os, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *
import sqlite3

TEXTS = sorted(["", "abc", "it's", "two words", "é", "12", "a;b", "-- x"], key=lambda s: s.encode())
def lit(k): return "NULL" if k == 0 else "'%s'" % TEXTS[k - 1].replace("'", "''")
def num(a): return str(a[0]) if a else "NULL"
def cond(c): return {"all": "", "eq": " WHERE a = %s", "gt": " WHERE a > %s", "null": " WHERE b IS NULL", "anull": " WHERE a IS NULL", "b": " WHERE b = %s"}[c[0]].replace("%s", str(c[1]) if c[0] in ("eq", "gt") else lit(c[1]) if c[0] == "b" else "")
COLS = {"ab": ("a", "b"), "star": ("a", "b"), "b": ("b",), "agg": ("n", "s")}
def sql(q):
    k = q[0]
    if k == "create": return "CREATE TABLE %s (a INTEGER, b TEXT)" % q[1]
    if k == "drop": return "DROP TABLE %s" % q[1]
    if k == "ins": return "INSERT INTO %s VALUES %s" % (q[1], ", ".join("(%s, %s)" % (num(a), lit(b)) for a, b in q[2]))
    if k == "del": return "DELETE FROM %s%s" % (q[1], cond(q[2]))
    if k == "upd": return "UPDATE %s SET b = %s%s" % (q[1], lit(q[2]), cond(q[3]))
    if k == "sel": return "SELECT %s FROM %s%s%s" % ({"ab": "a, b", "star": "*", "b": "b", "agg": "count(*) AS n, sum(a) AS s"}[q[2]], q[1], cond(q[3]), {"": " ORDER BY rowid" if q[2] != "agg" else "", "desc": " ORDER BY a DESC, rowid", "b": " ORDER BY b, rowid"}[q[4]])
    if k == "wrong": return "SELEKT 1"
    return k.upper()
def txt(k): return "nil" if k == 0 else TEXTS[k - 1]
def row(form, r):
    vs = {"ab": lambda: [num(r[0]).replace("NULL", "nil"), txt(r[1])], "b": lambda: [txt(r[0])], "agg": lambda: [str(r[0]), num(r[1]).replace("NULL", "nil")]}["ab" if form == "star" else form]()
    return "<" + "".join(v + ";" for v in vs) + ">"
CB = "".join("%s = (row):\n  \"<\" print\n%s  \">\" print\n.\n" % (n, "".join('  row("%s") print\n  ";" print\n' % c for c in cols)) for n, cols in (("cab", ("a", "b")), ("cb", ("b",)), ("cagg", ("n", "s"))))
def query(text, k):
    """a query written out, or built when it is needed"""
    if not k: return '"%s"' % text
    i = k % len(text)
    return '"%s" + "%s" + " "' % (text[:i], text[i:])
def program(r):
    src, exp, made = ['load "database"', CB.rstrip()], [], set()
    for c, op, res in r["l"]:
        h = "c%d" % c; o = op[0]
        if o == "new":
            src += ['%s = Database("%s.db")' % (h, op[1])] + ['%s open? print' % h]; e = "true"; t = "Database(%s)" % op[1]
        elif o in ("open", "close", "open?"):
            t = {"open": lambda: '%s open("%s.db")' % (h, op[1]), "close": lambda: h + " close", "open?": lambda: h + " open?"}[o]()
            src += ["r = " + t, "(r == %s) print" % ("true" if o == "open?" else h)]; e = "true" if o != "open?" or res[1] else "false"
        else:
            qs = op[1]; forms = [q[2] for q in qs if q[0] == "sel"]; q = "; ".join(sql(q) for q in qs); q = query(q, (len(exp) * 7 + 5) % 30 if len(exp) % 3 else 0)
            cb = {"ab": "cab", "star": "cab", "b": "cb", "agg": "cagg"}
            rows = "".join(row(f, x) for f, x in res[1]) if len(res) > 1 else ""
            if o == "gettable":
                t = "%s gettable(%s)" % (h, q); form = forms[0] if forms else "ab"
                src.append("r = " + t)
                if res[0] == "ok": src += ["r each(%s)" % cb[form], "r length print"]; e = rows + str(len(res[1]))
                else: src.append("r print"); e = "nil" if res[0] == "nil" else "@err"
            else:
                # one callback serves all: with several selects it prints every column any of them has
                fs = sorted(set(cb[f] for f in forms))
                if o == "nest": t = "%s exec(%s, (row):\n  %s(row)\n  %s exec(\"INSERT INTO u VALUES (9, %s)\")\n.)" % (h, q, fs[0], h, lit(1)); 
                elif len(fs) > 1: t = '%s exec(%s, (row):\n  "<" print\n  row("n") print\n  row("s") print\n  row("a") print\n  row("b") print\n  ">" print\n.)' % (h, q); rows = "".join("<%s>" % "".join({"n": lambda: str(x[0]) if f == "agg" else "nil", "s": lambda: num(x[1]).replace("NULL", "nil") if f == "agg" else "nil",
                        "a": lambda: num(x[0]).replace("NULL", "nil") if f in ("ab", "star") else "nil", "b": lambda: "nil" if f == "agg" else txt(x[-1])}[k]() for k in "nsab") for f, x in res[1])
                elif o == "silent" or not fs: t = "%s exec(%s)" % (h, q); rows = rows if o != "silent" else ""
                else: t = "%s exec(%s, %s)" % (h, q, fs[0])
                src += ["r = " + t, ("(r == %s) print" % h) if res[0] == "ok" else "r print"]; e = rows + ("true" if res[0] == "ok" else "@err")
        src.append('"|" print'); exp.append((t, e))
    for c in sorted(set(l[0] for l in r["l"])): src.append("c%d close" % c)
    return "\n".join(src) + "\n", exp
def check(ctx):
    d = ctx.build(); exe = os.path.join(d, "bin/potion")
    def sim(files, nc, depth, num): return tlc_sim(ctx, "Db", dict(NTexts=len(TEXTS), Depth=depth, Files=set(files), NConn=nc), num=num, depth=depth + 1, invariants=["Emit"], properties=["OneFile"], procs=2, timeout=850)
    with ThreadPoolExecutor(4) as ex:
        recs = [r for f in [ex.submit(sim, *a) for a in (("x", 1, 14, ctx.n(60, 1500)), ("x", 2, 18, ctx.n(60, 1500)), ("xy", 2, 30, ctx.n(50, 1200)))] for r in f.result()]
    ctx.rng.shuffle(recs); recs = recs[:ctx.n(500, 15000)]
    ctx.cov["histories"] = len(recs); ctx.sample(str(recs[0]["l"])[:500])
    root = os.path.join(ctx.work, "db"); rep = 0
    for m, env in (("-X", None), ("-B", None), ("-X", "POTION_GC_EVERY=1"), ("-B", "POTION_GC_EVERY=3"), ("-X", "POTION_GC_EVERY=5")):
        dirs = []
        for k, r in enumerate(recs):
            w = os.path.join(root, "%s%s-%d" % (m, env, k)); os.makedirs(os.path.join(w, "lib")); dirs.append(w); os.symlink(os.path.join(d, "lib/potion"), os.path.join(w, "lib/potion"))
            with open(os.path.join(w, "p.pn"), "w", encoding="utf-8") as f: f.write(program(r)[0])
        res = run_jobs(ctx, [(20000, env, ["/bin/sh", "-c", "cd %s && exec %s %s p.pn 2>/dev/null" % (w, exe, m)]) for w in dirs])
        for r, w, (st, out) in zip(recs, dirs, res):
            if st == 998: continue
            src, exp = program(r); got = out.decode("utf-8", "replace").split("|"); bad = None
            for j, (t, e) in enumerate(exp):
                g = got[j] if j < len(got) - 1 else "<end, exit %d>" % st
                if not (g.startswith(e[:-4] + "** Error") if e.endswith("@err") else g == e): bad = "%s gives %r, the specification says %r" % (t, g[:300], e[:300]); break
            if not bad and st: bad = "exit %d" % st
            for f, tabs in r["f"].items():
                p = os.path.join(w, f + ".db")
                if bad or not os.path.exists(p): continue
                db = sqlite3.connect(p)
                for t, rows in tabs.items():
                    try: have = [[[] if a is None else [a], 0 if b is None else TEXTS.index(b) + 1] for a, b in db.execute("SELECT a, b FROM %s ORDER BY rowid" % t)]
                    except sqlite3.OperationalError: have = None
                    want = rows[1] if rows[0] == "rows" else None
                    if have != want: bad = "table %s of %s ends as %s, the specification says %s" % (t, f, have, want); break
                db.close()
            if bad:
                rep += 1
                if rep < 8: ctx.violation("%s%s %s" % (m, " " + env if env else "", bad), "%s\n%s\n%s\noutput %s" % (m + " " + str(env), src, bad, out[:3000]))
            else: ctx.add("traces_validated_against_impl", 1)
        shutil.rmtree(root, ignore_errors=True)
main(check, "P19")
