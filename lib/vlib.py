"""Shared machinery of the checks: running TLC, collecting the behaviours it emits,
replaying them into the real potion runtime and reporting."""
import traceback, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

class CheckError(Exception):
    pass

class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.md5(prop.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []; self.hung = 0
        self.known = load_known(prop)
        self.known_hit = {}
        self.lock = threading.Lock()
        self.quick = self.tier == "quick"
        self._build = None
    # -- building ---------------------------------------------------------
    def build(self):
        if self._build is None:
            self._build = B.build()
        return self._build
    def driver(self):
        d = self.build()
        return build_driver(d)
    def n(self, quick, thorough):
        return quick if self.quick else thorough
    def add(self, key, k=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + k
    def sample(self, s, limit=6):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(s)
    # -- reporting ----------------------------------------------------------
    def violation(self, what, replay_text, key=None):
        """key: identifies the failing input/history for the known-findings file"""
        with self.lock:
            for k in self.known:
                if key is not None and k["key"] == key:
                    self.known_hit.setdefault(key, what)
                    return
            d = os.path.join(VERIF, "replay", self.prop)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, hashlib.sha256((what + replay_text).encode()).hexdigest()[:16] + ".txt")
            with open(p, "w") as f:
                f.write(what + "\n\n" + replay_text)
            self.violations.append((what, p))
    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        shutil.rmtree(self.work, ignore_errors=True)
        for what, p in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
            print("  " + what[:600].replace("\n", "\n  "))
        print("%s %s seed=%d: %s in %.1fs  %s" % (self.prop, self.tier, self.seed,
              "VIOLATED" if self.violations else "ok", time.time() - self.t0,
              json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        sys.exit(1 if self.violations else 0)

def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]

def build_driver(d, name="drv", extra=()):
    """compiles /verif/drv/<name>.c against the static library of build directory d"""
    src = os.path.join(VERIF, "drv", name + ".c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(d, "%s-%s" % (name, h))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        B.run(["clang", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-fno-strict-aliasing", "-msse2", "-w",
               "-Icore", "-Ilib", "-o", tmp, src] + list(extra) + ["lib/libpotion.a", "-lm", "-ldl"], d)
        os.replace(tmp, out)
    return out

# ------------------------------------------------------------------ TLC ------
def tla(v):
    """Python value -> TLA+ text"""
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict): return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)

LINE = re.compile(r'^<<"@(\w+)", (".*")>>$')

class TlcResult:
    def __init__(self): self.states = self.distinct = 0; self.records = []; self.out = ""; self.rc = None; self.violated = False

def run_tlc(work, module, consts, invariants=(), properties=(), view=None, spec="Spec", mode="bfs", workers=1, seed=1,
            num=100, depth=50, heap="3g", timeout=600, constraint=None, extra_defs="", extra_cfg="", env=None, on_record=None,
            postcondition=None, deadlock=False):
    """consts: name -> python value.  Returns TlcResult; .records = emitted JSON values."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
        for k, v in consts.items():
            f.write("mc_%s == %s\n" % (k, v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "tla" else tla(v)))
        f.write(extra_defs + "\n====\n")
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if view: f.write("VIEW %s\n" % view)
        if consts:
            f.write("CONSTANTS\n" + "".join("  %s <- mc_%s\n" % (k, k) for k in consts))
        if invariants: f.write("INVARIANTS " + " ".join(invariants) + "\n")
        if properties: f.write("PROPERTIES " + " ".join(properties) + "\n")
        if constraint: f.write("CONSTRAINT " + constraint + "\n")
        if postcondition: f.write("POSTCONDITION " + postcondition + "\n")
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        f.write(extra_cfg + "\n")
    cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss16m", "-XX:CICompilerCount=2"] + (["-Xmn400m"] if workers == 1 else []) + ["-Djava.io.tmpdir=" + d,
           "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta")]
    if mode == "sim":
        cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    else:
        cmd += ["-seed", str(seed), "-fp", "0"]
    cmd.append("MC.tla")
    r = TlcResult()
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, text=True, errors="replace")
    timer = threading.Timer(timeout, p.kill); timer.start()
    tail = []
    for line in p.stdout:
        line = line.rstrip("\n")
        m = LINE.match(line)
        if m:
            rec = json.loads(json.loads(m.group(2)))
            if on_record: on_record(rec)
            else: r.records.append(rec)
            continue
        tail.append(line)
        if len(tail) > 400: tail.pop(0)
    r.rc = p.wait(); timer.cancel()
    r.out = "\n".join(tail)
    m = re.findall(r"^(?:The number of states generated: (\d+)|(\d+) states generated, (\d+) distinct states found)", r.out, re.M)
    for a, b, c in m:
        if a: r.states = r.distinct = int(a)
        if b: r.states, r.distinct = int(b), int(c)
    shutil.rmtree(d, ignore_errors=True)
    r.violated = "is violated" in r.out or "Invariant" in r.out and "violated" in r.out
    ok = r.rc == 0 and "Error:" not in r.out
    if not ok and not r.violated:
        raise CheckError("TLC failed (rc %s):\n%s" % (r.rc, r.out[-1500:]))
    return r

def tlc_bfs(ctx, module, consts, **kw):
    r = run_tlc(ctx.work, module, consts, mode="bfs", seed=ctx.seed, **kw)
    with ctx.lock:
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.states
    if r.violated:
        raise CheckError("the specification violates its own invariant:\n" + r.out[-3000:])
    return r

def tlc_sim(ctx, module, consts, num, depth, procs=NCPU, **kw):
    """procs TLC simulators with different seeds, each producing num behaviours"""
    def one(i):
        return run_tlc(ctx.work, module, consts, mode="sim", seed=ctx.seed * 1000 + i, num=num, depth=depth, workers=1, **kw)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    recs = []
    for r in rs:
        if r.violated:
            raise CheckError("the specification violates its own invariant:\n" + r.out[-3000:])
        with ctx.lock:
            ctx.cov["states"] += r.states
            ctx.cov["transitions"] += r.states
        recs += r.records
    return recs

# ----------------------------------------------------- replay by the driver ---
class Case:
    """one behaviour: driver commands with the expected observation of each (None: not compared)"""
    __slots__ = ("cmds", "exp", "note")
    def __init__(self, note=None): self.cmds, self.exp, self.note = [], [], note
    def do(self, cmd, exp=None): self.cmds.append(cmd); self.exp.append(exp)

import ctypes
LIBC = ctypes.CDLL(None)
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not os.environ.get("VERIF_ASLR"): LIBC.personality(0x0040000)      # ADDR_NO_RANDOMIZE: the same addresses every time

def run_driver(drv, mode, text, timeout=120, cwd=None, env=None):
    try:
        r = subprocess.run([drv, mode], preexec_fn=limit, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return r.stdout.decode("latin-1").split("\n"), r.returncode
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode("latin-1").split("\n") + ["TIMEOUT"], -999

def first_diff(cases, lines):
    """index of (case, step) where the observations leave the expectation, or None"""
    p = 0
    for ci, c in enumerate(cases):
        p += 1                                   # the reset
        for si, e in enumerate(c.exp):
            got = lines[p] if p < len(lines) else "<no output>"
            if e is not None and got != e or got.startswith(("CRASH", "TIMEOUT")) or p >= len(lines) - 1 and got == "":
                return ci, si, got
            p += 1
    return None

def replay(ctx, cases, mode="-X", chunk=400, name="trace", gc=None):
    """replays every case; reports the first reproducible difference of each chunk"""
    drv = ctx.driver()
    env = dict(os.environ, POTION_GC_EVERY=str(gc)) if gc else None       # collect at every gc-th allocation
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    def text(cs):
        return "".join("reset\n" + "\n".join(c.cmds) + "\n" for c in cs)
    def one(cs):
        out = []
        start = 0
        while start < len(cs) and len(out) < 3:
            part = cs[start:]
            lines, rc = run_driver(drv, mode, text(part), env=env)
            d = first_diff(part, lines)
            ctx.add("traces_validated_against_impl", d[0] if d else len(part))
            if not d: break
            ci, si, got = d
            # does it reproduce, alone or after the same predecessors?
            for pre in ([part[ci]], part[:ci + 1]):
                lines2, rc2 = run_driver(drv, mode, text(pre), env=env)
                d2 = first_diff(pre, lines2)
                if d2 and d2[0] == len(pre) - 1:
                    c = pre[-1]
                    out.append((pre, d2))
                    break
            start += ci + 1
        return out
    with ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(one, chunks):
            for pre, (ci, si, got) in res:
                c = pre[-1]
                what = "%s: after\n%s\nexpected %s\n     got %s" % (name, "\n".join(c.cmds[max(0, si - 14):si + 1]), c.exp[si], got)
                ctx.violation(what, ("POTION_GC_EVERY=%s " % gc if gc else "") + "driver mode %s; feed these commands to drv (drv/drv.c):\n%s\nexpected:\n%s\n" % (
                    mode, text(pre), "\n".join(str(x) for x in c.exp)))

def hexs(codes):
    return "".join("%02x" % c for c in codes)

def main(fn, prop, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
    except B.BuildError as e:
        print("the tree does not build: %s" % e); shutil.rmtree(ctx.work, ignore_errors=True); sys.exit(2)
    except Exception as e:
        print("check error: %s" % e)
        if not isinstance(e, CheckError): traceback.print_exc()
        if ctx.violations: ctx.finish()                  # what was found before counts
        shutil.rmtree(ctx.work, ignore_errors=True); sys.exit(2)
    ctx.finish()
