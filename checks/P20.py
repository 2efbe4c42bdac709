import os, sys, shutil, subprocess, pty, select, time, termios, fcntl, struct, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
BYTES = [0x61, 0x62, 0x20, 0x63, 0x78, 0x79, 0x7a, 0x70, 0xc3, 0xa9]
PROMPT = {0: "", 1: ">", 2: "> ", 3: ">> ", 6: "line> "}
CTL = {"left": 2, "right": 6, "home": 1, "end": 5, "bs": 8, "eof": 4, "swap": 20, "kill": 11, "clear": 21, "word": 23, "up": 16, "down": 14, "enter": 13, "int": 3, "tab": 9, "redraw": 12}
ESC = {"left": "[D", "right": "[C", "up": "[A", "down": "[B", "del": "[3~"}
NOP = {"f5": "[15~", "sdel": "[3;5~", "khome": "[H", "pgup": "[5~"}
def txt(t): return bytes(BYTES[c - 1] for c in t)
def key(k):
    if k[0] == "ch": return txt([k[1]])
    if k[0] == "paste": return txt([k[1]]) * k[2]
    if k[0] == "nop": return b"\x1b" + NOP[k[1]].encode()
    if k[-1] == "esc": return b"\x1b" + ESC[k[0]].encode()
    return b"\x7f" if k[-1] == "127" else bytes([CTL[k[0]]])
def token(k, chunk):
    if k[0] == "paste": return "%s*%d" % (txt([k[1]]).hex(), k[2])
    b = key(k)
    if chunk == 0: return b.hex()
    return "".join("%02x" % c + ("|" if i + 1 < len(b) and (chunk == 3 or i + 1 == chunk) else "") for i, c in enumerate(b))
def script(r, f):
    out, cur = [], None
    for e in r["l"]:
        if e[0] == "start": out += ["max %d" % e[2], "cols %d" % e[3]] + ["add " + txt(t).hex() for t in e[1]]
        elif e[0] == "prompt": cur = "line ." + PROMPT[e[1]].encode().hex(); out.append(cur)
        elif e[0] == "key": out[-1] += " " + token(e[1], e[2])
        elif e[0] == "add": out.append("add " + txt(e[1]).hex())
        elif e[0] == "max": out.append("max %d" % e[1])
        else: out.append("%s %s" % (e[0], f))
    if r["e"] != "edit": out.append("file " + f)
    return out
def show(e): return {"key": lambda: "key %s" % " ".join(map(str, e[1])), "prompt": lambda: "prompt"}.get(e[0], lambda: e[0])()
def expected(r):
    """lines of output: (what, line)"""
    out, cols, pl = [], 80, 0
    def scr(s): return "S %s %d" % ((PROMPT[pl].encode() + txt(s[0])).rstrip(b" ").hex(), s[1]) if pl < cols else None
    for i, e in enumerate(r["l"]):
        if e[0] == "start": cols = e[3]
        elif e[0] == "prompt": pl = e[1]
        elif e[0] == "key":
            if e[4]: out.append((show(e), "L " + txt(e[4][1]).hex() if e[4][0] == "line" else "N"))
            else: out.append((show(e), scr(e[3])))
        elif e[0] == "file": out.append(("history", "F" + "".join(" ." + txt(t).hex() for t in e[1])))
    if r["e"] == "edit": out.append(("end", "E more"))
    else: out.append(("history", "F" + "".join(" ." + txt(t).hex() for t in r["h"])))
    return out

def editor(exe, r, w, env, mode):
    """the editor of a Potion program on a real terminal, compared with the specification; gives what is wrong or None"""
    start, lines = r["l"][0][1], []; hist = start
    for e in r["l"][1:]:
        if e[0] == "prompt": lines.append([[], None])
        elif e[0] == "key":
            lines[-1][0].append((e[1], e[2]))
            if e[4]: lines[-1][1] = e[4]
        elif e[0] == "add": hist = e[2]
    if lines and (lines[-1][1] is None or (r["l"][-1][0] == "key" and lines[-1][1][0] == "line")): lines.pop()
    with open(os.path.join(w, "p.pn"), "w") as f: f.write('load "readline"\nr = ()\ni = 0\nwhile (i < %d):\n  s = readline(">> ")\n  r push(s)\n  i = i + 1\n.\n"@@" print\nr each (s):\n  s print\n  "|" print\n.\n' % len(lines))
    with open(os.path.join(w, "history.txt"), "wb") as f: f.write(b"".join(txt(t) + b"\n" for t in start))
    m, sl = pty.openpty(); fcntl.ioctl(sl, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0)); before = termios.tcgetattr(sl)
    p = subprocess.Popen([exe, mode, "p.pn"], cwd=w, stdin=sl, stdout=sl, stderr=sl, env=dict(os.environ, TERM="xterm", **env), start_new_session=True)
    got = bytearray(); end = time.time() + 25
    def until(f):
        while not f():
            if time.time() > end: return False
            x, _, _ = select.select([m], [], [], 0.05)
            if x: got.extend(os.read(m, 65536))
            elif p.poll() is not None: return f()
        return True
    bad, sat = None, 0
    try:
        for j, (ks, res) in enumerate(lines):
            if not until(lambda: got.find(b">> ", sat) >= 0): bad = "no prompt for line %d (exit %s)" % (j + 1, p.poll()); break
            for k, c in ks:
                b = key(k)
                if c and len(b) > 1 and k[0] != "paste":
                    for i in range(len(b)): os.write(m, b[i:i + 1]); (time.sleep(0.003) if c in (3, i + 1) else None)
                else: os.write(m, b)
                if k[0] == "paste":
                    t = time.time() + 0.5
                    while time.time() < t and select.select([m], [], [], 0.05)[0]: got.extend(os.read(m, 65536))
            if not until(lambda: got.find(b"\n", sat) >= 0): bad = "line %d did not end" % (j + 1); break
            sat = got.find(b"\n", sat) + 1
        if not bad:
            want = "".join(("nil" if l[1][0] == "nil" else txt(l[1][1]).decode("latin1")) + "|" for l in lines)
            until(lambda: False if p.poll() is None else True)
            while select.select([m], [], [], 0.05)[0]: got.extend(os.read(m, 65536))
            i = got.rfind(b"@@"); out = got[i + 2:].decode("latin1") if i >= 0 else "<exit %s>" % p.wait()
            if out != want: bad = "the lines read are %r, the specification says %r" % (out[-400:], want[-400:])
            h = [l for l in open(os.path.join(w, "history.txt"), "rb").read().split(b"\n")[:-1]]
            if not bad and h != [txt(t) for t in hist]: bad = "the history file ends as %s, the specification says %s" % (str(h)[:300], str([txt(t) for t in hist])[:300])
            if not bad and termios.tcgetattr(sl) != before: bad = "the terminal was not set back"
    finally:
        if p.poll() is None: p.kill()
        p.wait(); os.close(m); os.close(sl)
    if not bad and "POTION_GC_EVERY" not in env: # the same lines from a pipe, or on a terminal that cannot edit
        want = [txt(l[1][1]) for l in lines if l[1][0] == "line" and 13 not in txt(l[1][1])]; want = [t for t in want if len(t) < 4095]
        for term in ("xterm", "dumb"):
            p = subprocess.run([exe, mode, "p.pn"], cwd=w, input=b"".join(t + b"\n" for t in want), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, TERM=term), timeout=25)
            out = p.stdout[p.stdout.rfind(b"@@") + 2:]; w2 = b"".join(t + b"|" for t in want) + b"nil|" * (len(lines) - len(want))
            if out != w2: return "from a pipe (%s) the lines read are %r, the specification says %r" % (term, out[-400:], w2[-400:])
    return bad
def check(ctx):
    d = ctx.build(); exe = os.path.join(ctx.work, "lined")
    src = os.path.join(d, "lib/readline")
    subprocess.run(["gcc", "-g", "-O1", "-fsanitize=address", "-w", "-I" + src, "-o", exe, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "drv/line.c"), os.path.join(src, "linenoise.c")], check=True)
    keys = [["ch", 1], ["ch", 3], ["ch", 4], ["left", "esc"], ["right", "ctl"], ["home", "ctl"], ["end", "ctl"], ["bs", "127"], ["del", "esc"], ["eof", "ctl"], ["swap", "ctl"], ["kill", "ctl"], ["clear", "ctl"], ["word", "ctl"], ["up", "esc"], ["down", "ctl"], ["tab", "ctl"], ["enter", "ctl"], ["int", "ctl"]]
    al = ("tla", "{" + ", ".join("<<%s>>" % ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in k) for k in keys) + "}")
    jobs = [lambda: tlc_bfs(ctx, "Line", dict(Mode="all", Alphabet=al, Depth=ctx.n(3, 4), Cap=4095, NStart=3), invariants=["Inside", "OnScreen", "Emit"], properties=["OneEntry"], timeout=850).records]
    for k in range(2): jobs.append(lambda k=k: tlc_sim(ctx, "Line", dict(Mode="random", Alphabet=("tla", "{}"), Depth=ctx.n((60, 120)[k], (80, 300)[k]), Cap=4095, NStart=1), num=ctx.n(150, 3000), depth=ctx.n((60, 120)[k], (80, 300)[k]) + 1, invariants=["Inside", "OnScreen", "Emit"], properties=["OneEntry"], procs=2, timeout=850))
    with ThreadPoolExecutor(3) as ex: recs = [r for f in [ex.submit(j) for j in jobs] for r in f.result()]
    ctx.cov["histories"] = len(recs); ctx.sample(str(recs[-1]["l"])[:500])
    n = (len(recs) + 7) // 8; f = os.path.join(ctx.work, "hist%d")
    parts = [recs[i:i + n] for i in range(0, len(recs), n)]
    def run(i):
        p = subprocess.run([exe], input="".join("\n".join(script(r, f % i)) + "\n---\n" for r in parts[i]).encode(), stdout=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", TERM="xterm"))
        return p.stdout.decode().split("\n")
    rep = 0
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(run, range(len(parts))))
    for part, out in zip(parts, outs):
        it = iter(out)
        for r in part:
            got = []
            for l in it:
                if l.startswith("--- "): break
                got.append(l)
            else: l = "--- lost"
            exp = expected(r); bad = None
            for j, (t, e) in enumerate(exp):
                g = got[j] if j < len(got) else "<nothing, %s>" % l
                if e is not None and g != e and not (e is None): bad = "%s gives %s, the specification says %s" % (t, g[:200], e[:200]); break
            if not bad and len(got) > len(exp): bad = "more output: %s" % got[len(exp)]
            if not bad and l != ("--- 3" if r["e"] == "edit" else "--- 0"): bad = "status " + l
            if bad:
                rep += 1
                if rep < 8: ctx.violation(bad, "%s\n%s\noutput:\n%s\nexpected:\n%s" % (bad, "\n".join(script(r, "FILE"))[:3000], "\n".join(got)[:3000], "\n".join(str(e[1]) for e in exp)[:3000]))
            else: ctx.add("traces_validated_against_impl", 1)
    apps = tlc_sim(ctx, "Line", dict(Mode="app", Alphabet=("tla", "{}"), Depth=80, Cap=4095, NStart=1), num=ctx.n(20, 300), depth=81, invariants=["Inside", "Emit"], procs=2, timeout=300)
    ctx.rng.shuffle(apps); apps = apps[:ctx.n(40, 600)]; ctx.cov["terminal_sessions"] = len(apps); jobs = []
    for k, r in enumerate(apps):
        w = os.path.join(ctx.work, "app%d" % k); os.makedirs(os.path.join(w, "lib")); os.symlink(os.path.join(d, "lib/potion"), os.path.join(w, "lib/potion")); jobs.append((os.path.join(d, "bin/potion"), r, w, {} if k % 4 else {"POTION_GC_EVERY": "3"}, ("-X", "-B")[k % 2]))
    with ThreadPoolExecutor(8) as ex: bads = list(ex.map(lambda j: editor(*j), jobs))
    for j, bad in zip(jobs, bads):
        if bad: ctx.violation("readline on a terminal: " + bad, "%s %s %s\n%s\n" % (bad, j[3], j[4], "\n".join(str(e) for e in j[1]["l"])[:6000]))
        else: ctx.add("traces_validated_against_impl", 1)
main(check, "P20")
