"""Histories of File.tla as Potion programs in scratch directories."""
import os, re, shutil
from vlib import *
from prog import *
SEP = "|"
def esc(s): return '"' + "".join({10: "\\n", 34: '\\"', 92: "\\\\"}.get(b) or chr(b) for b in s) + '"'
def byt(s):
    """bytes from a text, or grown from a part of it"""
    k = sum(s) % 3
    return "%s bytes" % esc(s) if k == 0 or len(s) < 2 else "gr(%s, %s)" % (esc(s[:k]), esc(s[k:]))
def val(v): return {"str": lambda: esc(v[1]), "byt": lambda: byt(v[1]), "dbl": lambda: bytes(v[1]).decode(), "int": lambda: str(v[1]), "bool": lambda: "true" if v[1] else "false", "nil": lambda: "nil"}[v[0]]()
def show(r):
    k = r[0]
    if k == "num": return str(r[1])
    if k == "bytes": return bytes(r[1])
    return {"nil": "nil", "true": "true", "false": "false", "ok": "@ok", "err": "@err", "name": "@name", "closed": "@closed"}[k]
def history(i, rec):
    """-> (statements, [(expected, text of the operation)])"""
    st, exp = [], []
    name = lambda m: "h%d%s" % (i, m)
    for op, r in rec["h"]:
        o, h = op[0], "h%s" % (op[1] if len(op) > 1 else "")
        e = show(r); want = [e]
        if o == "open":
            v = "h%d" % op[4] if op[4] else "e"
            st.append('%s = %s("%s", "%s")' % (v, {"F": "File", "B": "fopen"}[op[1]], name(op[2]), op[3])); st.append("%s string print" % v)
            want = ["@err"] if r[0] == "err" else ["nil"] if r[0] == "nil" else ["<%s %s fd: #>" % ({"F": "file", "B": "buffile"}[op[1]], name(op[2]))]
            exp += [(w, st[-2]) for w in want]; st.append('"|" print'); continue
        if o == "reopen":
            st += ['%s freopen("%s", "%s", h%d) string print' % (h, name(op[3]), op[4], op[2]), '"|" print']
            exp.append(("@err" if r[0] == "err" else "<buffile %s fd: #>" % name(op[3]), st[-2])); continue
        if o == "over":
            t = "%s %s(u, %d, %d)" % (h, op[2], op[4], op[5])
            st += ['u = "%s" bytes' % ("." * op[3]), "r = " + t, "r print", '"|" print', "u print", '"|" print']; exp += [("@err", t), ("." * op[3], t + " buffer")]; continue
        if o == "tmp":
            st += ["%s = tmpfile" % h, "%s string print" % h, '"|" print']; exp.append(("<buffile ? fd: #>", st[-3])); continue
        if o == "fread":
            st.append('u = "%s" bytes' % ("." * (op[2] * op[3] + 2))); t = "%s fread(u, %d, %d)" % (h, op[3], op[2]) if False else "%s fread(u, %d, %d)" % (h, op[2], op[3])
            st += ["r = " + t, "r print", '"|" print', "u print", '"|" print']
            s = bytes(op[4]); exp += [(e, t), (s + b"." * (op[2] * op[3] + 2 - len(s)), t + " buffer")]; continue
        t = {"read": lambda: "read(%d)" % op[2], "write": lambda: ("%s(%s)" % ("print" if op[3] else "write", val(op[2]))) if len(op) == 4 else "write(%s)" % esc(op[2]),
             "close": lambda: "close", "string": lambda: "string", "getc": lambda: "fgetc", "gets": lambda: "fgets", "copy": lambda: "write(h%d read(%d))" % (op[1], op[3]), "writeb": lambda: "write(%s)" % byt(op[2]), "puts": lambda: "fputs(%s)" % esc(op[2]),
             "putc": lambda: "fputc(%d)" % op[2][0], "writen": lambda: "write(%s, %d, %d)" % (esc(op[2]), op[3], op[4]), "flush": lambda: "fflush",
             "seek": lambda: "fseek(%d, %d)" % (op[2], op[3]), "tell": lambda: "ftell", "eof": lambda: "feof", "unlink": lambda: "unlink", "stdin": lambda: "read"}[o]()
        if o == "copy": h = "h%d" % op[2]
        if o != "stdin": t = h + " " + t
        if o == "string":
            want = ["<closed %s>" % {"F": "file", "B": "buffile"}[r[1]]] if r[0] == "closed" else ["<%s %s fd: #>" % ({"F": "file", "B": "buffile"}[r[1]], name(r[2]) if r[2] else "?")]
        st += ["r = " + t, "r print", '"|" print']; exp += [(w, t) for w in want]
    return st, exp
def program(hs):
    """hs: [(number, record)] -> source, expected"""
    src, exp = ['load "buffile"', "gr = (a, b):", "  x = a bytes", "  x append(b)", "  x", "."], []
    for i, rec in hs:
        st, ex = history(i, rec)
        src += ["f%d = ():" % i] + ["  " + s for s in st] + ["  nil", ".", "f%d()" % i]; exp += [(w, t, i) for w, t in ex]
    return "\n".join(src) + "\n", exp
def same(w, g):
    w = w.encode("latin-1") if isinstance(w, str) else w
    if w == b"@err": return g.startswith(b"** Error")
    if w == b"@ok": return g.isdigit()
    g = re.sub(rb"fd: \d+>", b"fd: #>", g); g = re.sub(rb"<buffile 0x[0-9a-f]+ ", b"<buffile ? ", g)
    return w == g

def check_histories(ctx, recs, per, stdin=None, modes=MODES, gc=(), timeout=20000):
    d = ctx.build(); exe = os.path.join(d, "bin/potion"); root = os.path.join(ctx.work, "files-%d" % id(recs))
    confs = [(m, None) for m in modes] + [(m, "POTION_GC_EVERY=%d" % g) for g in gc for m in modes]
    progs = [program(list(enumerate(recs))[lo:lo + per]) for lo in range(0, len(recs), per)]
    rep = 0
    for c, (m, env) in enumerate(confs):
        dirs = []
        for k, (src, exp) in enumerate(progs):
            w = os.path.join(root, "%d-%d" % (c, k)); os.makedirs(os.path.join(w, "lib")); dirs.append(w)
            os.symlink(os.path.join(d, "lib/potion"), os.path.join(w, "lib/potion"))
            with open(os.path.join(w, "p.pn"), "wb") as f: f.write(src.encode("latin-1"))
            with open(os.path.join(w, "in"), "wb") as f: f.write(bytes(stdin or b""))
        job = lambda w: (timeout, env, ["/bin/sh", "-c", "cd %s && exec %s %s p.pn < in" % (w, exe, m)])
        res = run_jobs(ctx, [job(w) for w in dirs])
        for k, (st, out) in enumerate(res):
            if st == 998: continue
            src, exp = progs[k]; got = out.split(b"|"); w = dirs[k]; bad = None
            for j, (want, text, i) in enumerate(exp):
                g = got[j] if j < len(got) - 1 else b"<end, exit %d>" % st
                if not same(want, g): bad = (i, "%s gives %r, the specification says %r" % (text, g[:200], want[:200])); break
            if not bad and (st or len(got) != len(exp) + 1): bad = (exp[-1][2], "exit %d, %d results instead of %d: %r" % (st, len(got) - 1, len(exp), out[-200:]))
            for i, rec in list(enumerate(recs))[k * per:(k + 1) * per]:
                if bad: break
                for nm, f in rec["f"].items():
                    p = os.path.join(w, "h%d%s" % (i, nm)); have = open(p, "rb").read() if os.path.exists(p) else None
                    want = bytes(f[1]) if f[0] == "file" else None
                    if have != want: bad = (i, "at the end file %s is %r, the specification says %r" % (nm, have if have is None else have[:200], want if want is None else want[:200])); break
            if bad and rep < 8:
                rep += 1
                h = "\n".join(history(bad[0], recs[bad[0]])[0])
                ctx.violation("%s%s: %s" % (m, " " + env if env else "", bad[1]), "mode %s %s, history %d\n%s\n--- %s\nwhole program:\n%s" % (m, env or "", bad[0], h, bad[1], src))
            elif not bad: ctx.add("traces_validated_against_impl", len(recs[k * per:(k + 1) * per]))
        shutil.rmtree(root, ignore_errors=True)
