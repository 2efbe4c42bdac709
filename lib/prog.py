"""Running potion programs with expected outputs: interpreter, JIT, compiled bytecode, GC stress."""
import os, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
import build as B
from vlib import VERIF, NCPU, CheckError

def runner(ctx):
    src = os.path.join(VERIF, "drv", "run.c")
    out = os.path.join(ctx.build(), "run-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:12])
    with ctx.lock:
        if not os.path.exists(out):
            B.run(["clang", "-O1", "-w", "-o", out + ".tmp", src], ctx.build()); os.replace(out + ".tmp", out)
    return out

def run_jobs(ctx, jobs, cwd=None, procs=NCPU):
    """jobs: (timeout_ms, env or None, argv).  -> [(status, output bytes)]
    When too many jobs hang, the rest are not run (status 998): each that hung is a failure of its own."""
    exe = runner(ctx)
    cwd = cwd or ctx.build()
    hung = [0]
    def part(js):
        if hung[0] >= HANGS or (ctx.hung >= HANGS and ctx.violations): return [(998, b"")] * len(js)
        text = "".join("\t".join([str(t), e or "-"] + argv) + "\n" for t, e, argv in js)
        r = subprocess.run([exe, "3"], input=text.encode("utf-8", "surrogateescape"), stdout=subprocess.PIPE, cwd=cwd)
        out, p, res = r.stdout, 0, []
        while p < len(out):
            q = out.index(b"\n", p)
            st, n = out[p:q].split()
            n = int(n)
            res.append((int(st), out[q + 1:q + 1 + n]))
            p = q + n + 2
        if len(res) != len(js):
            raise CheckError("runner stopped after %d of %d jobs" % (len(res), len(js)))
        n = sum(st == 999 for st, _ in res); hung[0] += n; ctx.hung += n
        return res
    k = max(1, min(64, (len(jobs) + procs * 4 - 1) // (procs * 4)))
    parts = [jobs[i:i + k] for i in range(0, len(jobs), k)]
    with ThreadPoolExecutor(procs) as ex:
        res = []
        for r in ex.map(part, parts):
            res += r
    return res

MODES = ("-B", "-X")
HANGS = 24

class Prog:
    """source text, expected output (bytes), optional note; lines: (source line, expected line) pairs to shrink by"""
    __slots__ = ("src", "exp", "note", "path", "lines")
    def __init__(self, src, exp, note="", lines=None):
        self.lines = lines          # the statement each output line comes from
        self.src = src if isinstance(src, bytes) else src.encode("utf-8")
        self.exp = exp if isinstance(exp, bytes) else exp.encode("utf-8")
        self.note = note

def check_programs(ctx, progs, modes=MODES, gc=(), pnb=False, timeout=10000, what="program", judge=None, maxrep=8, count=True):
    """Runs every program in every mode; a program whose output differs twice is a violation.
    gc: values of POTION_GC_EVERY each run once more per mode.  pnb: compile to bytecode, run that."""
    d = ctx.build(); exe = os.path.join(d, "bin/potion")
    work = os.path.join(ctx.work, "progs-%d" % id(progs)); os.makedirs(work, exist_ok=True)
    for i, p in enumerate(progs):
        p.path = os.path.join(work, "p%d.pn" % i)
        with open(p.path, "wb") as f: f.write(p.src)
    confs = [(m, None, False) for m in modes] + [(m, "POTION_GC_EVERY=%d" % g, False) for g in gc for m in modes]
    if pnb:
        comp = run_jobs(ctx, [(timeout, None, [exe, "-c", p.path]) for p in progs])
        confs = [(m, e, True) for m, e, _ in confs]
        if pnb == "both": confs = [(m, None, False) for m in modes] + confs
    judge = judge or (lambda p, st, out: st == 0 and out == p.exp)
    def argv(p, c): return (timeout, c[1], [exe, c[0], p.path + "b" if c[2] else p.path])
    bad = []
    for c in confs:
        res = run_jobs(ctx, [argv(p, c) for p in progs])
        for p, (st, out) in zip(progs, res):
            if st != 998 and not judge(p, st, out): bad.append((p, c, st, out))
    if count: ctx.add("traces_validated_against_impl", len(progs) * len(confs) - len(bad))
    rep = late = 0
    for p, c, st, out in bad:
        if rep >= maxrep: break
        if st == 999:
            late += 1
            if late > 3 and rep: continue
        (st2, out2), = run_jobs(ctx, [argv(p, c)])
        if judge(p, st2, out2): continue
        rep += 1
        el, ol = p.exp.split(b"\n"), out2.split(b"\n")
        k = next((i for i in range(max(len(el), len(ol))) if i >= len(el) or i >= len(ol) or el[i] != ol[i]), 0)
        how = "%s%s%s" % (c[0], " from bytecode" if c[2] else "", " " + c[1] if c[1] else "")
        w = "%s: %s, exit %d: output line %d is %r, the specification says %r%s" % (what, how, st2, k + 1,
            (ol[k] if k < len(ol) else b"<end>")[:200], (el[k] if k < len(el) else b"<end>")[:200], "  " + p.note if p.note else "")
        if p.lines and k < len(p.lines): w += "\n" + p.lines[k]
        elif len(p.src) < 500: w += "\n" + p.src.decode("utf-8", "replace")
        ctx.violation(w, "run with bin/potion %s\n--- program\n%s\n--- expected output\n%s\n--- output\n%s\n" % (
            how, p.src.decode("utf-8", "replace"), p.exp.decode("utf-8", "replace"), out2.decode("utf-8", "replace")[:20000]))
    return bad
