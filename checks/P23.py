import os, sys, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from prog import *

def spell(q):
    out = ""; last = None; inside = False
    for f, t in q:
        if f == "code" and last == "code" and not (inside or out.endswith("\n") or t == "\n"): out += " "
        out += bytes.fromhex(t[1:]).decode("latin-1") if t[0] == "@" else t; last = f
        if f == "code" and t == '"': inside = not inside
    return out
def quote(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")

def check(ctx):
    K = ["str", "list", "if", "else", "times", "fn", "table", "class", "note"]
    progs = [[k] for k in K] + [list(p) for p in itertools.product(K, repeat=2)]
    if ctx.quick: progs = [p for i, p in enumerate(progs) if len(p) == 1 or (i + ctx.seed) % 6 == 0]
    ins = {"(", ")", "[", "]", "{", "}", ":", ".", '"', "#"}; odd = ["@ff", "@c3", "@80", "@e282", "@f09f98", "@c3a9", "@e282ac", "@f09f9880", "\\U{d800}", "\\udfff", "\\U{110000}"]
    r = tlc_bfs(ctx, "Syn", dict(Mode="bfs", Progs=("tla", "{%s}" % ", ".join(tla(p) for p in progs)), Ins=ins, Len0=0), workers=8, invariants=["Balanced", "Marked", "Emit"], timeout=ctx.n(200, 800))
    recs = list(r.records)
    few = [p for i, p in enumerate(progs) if len(p) == 2 and (i + ctx.seed) % ctx.n(9, 2) == 0]
    recs += tlc_bfs(ctx, "Syn", dict(Mode="bfs", Progs=("tla", "{%s}" % ", ".join(tla(p) for p in few + [["str"], ["note"]])), Ins=set(odd), Len0=0), workers=8, invariants=["Balanced", "Marked", "Emit"], timeout=ctx.n(200, 800)).records
    ctx.cov["texts_one_change"] = len(recs)
    for l, num in ((5, ctx.n(60, 1500)), (14, ctx.n(30, 600))):
        recs += tlc_sim(ctx, "Syn", dict(Mode="sim", Progs=set(), Ins=ins | set(odd), Len0=l), num=num, depth=l + 3, invariants=["Marked", "Emit"], timeout=ctx.n(200, 800))
    seen = {}
    for x in recs: seen.setdefault(spell(x["q"]), x)
    recs = list(seen.items()); ctx.cov["texts"] = len(recs); ctx.cov["malformed"] = sum(x["how"] == "bad" for _, x in recs)
    ctx.sample({"text": recs[5][0], "verdict": recs[5][1]["how"]}); ctx.sample({"text": recs[-1][0], "verdict": recs[-1][1]["how"]})
    d = ctx.build(); exe = os.path.join(d, "bin/potion"); root = os.path.join(ctx.work, "syn"); os.makedirs(os.path.join(root, "lib")); os.symlink(os.path.join(d, "lib/potion"), os.path.join(root, "lib/potion"))
    jobs, what = [], []
    for i, (text, x) in enumerate(recs):
        out = "".join(bytes.fromhex(t[1:]).decode("latin-1") if t[:1] == "@" else t for t in x["out"])
        with open(os.path.join(root, "p%d.pn" % i), "w", encoding="latin-1") as f: f.write(text)
        ways = [("-X", None), ("-B", None)] if (i + ctx.seed) % 3 == 0 else [(("-X", "-B")[i % 2], None)]
        if (i + ctx.seed) % 2 == 0: ways.append((("-X", "-B")[i // 2 % 2], ("eval", "load", "-c", "-e")[i // 4 % 4 if max(text) < "\x80" else 1 + i // 4 % 3]))
        for m, w in ways:
            name = "p%d.pn" % i; want = out
            if w == "eval" or w == "load":
                with open(os.path.join(root, "w%d.pn" % i), "w", encoding="latin-1") as f:
                    f.write('"before|" print\n' + ("%s eval\n" % quote(text) if w == "eval" else 'load("p%d")\n' % i) + '"|after" print\n')
                name = "w%d.pn" % i; want = "before|" + (out + "|after" if x["how"] == "ok" else "")
            if w == "-c": cmd = "%s -c p%d.pn >/dev/null; exec %s %s p%d.pnb" % (exe, i, exe, m, i)
            elif w == "-e": cmd = 'exec %s %s -e "$(cat p%d.pn)"' % (exe, m, i)
            else: cmd = "exec %s %s %s" % (exe, m, name)
            jobs.append((20000, None, ["/bin/sh", "-c", "cd %s && (%s) 2>err%d" % (root, cmd, len(jobs))])); what.append((i, m, w, want))
    rep = 0
    for k, (st, got) in enumerate(run_jobs(ctx, jobs)):
        if st == 998: continue
        i, m, w, want = what[k]; text, x = recs[i]; bad = None
        err = open(os.path.join(root, "err%d" % k), encoding="latin-1").read(); got = got.decode("latin-1")
        if got != want: bad = "output %r, the specification says %r" % (got[:200], want[:200])
        elif x["how"] == "ok" and st: bad = "exit %d" % st
        elif x["how"] == "bad" and w == "-c":
            if os.path.exists(os.path.join(root, "p%d.pnb" % i)): bad = "a bytecode file was written"
            elif not err.startswith(("** Syntax error", "Invalid utf-8")): bad = "no message about the text: %r" % err[:200]
        elif x["how"] == "bad" and st != 1: bad = "exit %d" % st
        elif x["how"] == "bad" and not err.startswith(("** Syntax error", "Invalid utf-8")): bad = "no message about the text: %r" % err[:200]
        if not bad: ctx.add("traces_validated_against_impl", 1); continue
        rep += 1
        if rep < 8: ctx.violation("%s%s: a %s text: %s\n%s" % (m, " " + w if w else "", "malformed" if x["how"] == "bad" else "well-formed", bad, text), "%s %s\n%s\n--- %s\noutput %s\nmessages %s" % (m, w, text, bad, got[:2000], err[:2000]))
    shutil.rmtree(root, ignore_errors=True)
main(check, "P23")
