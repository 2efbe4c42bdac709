"""Builds perl11/potion from /repo's current working tree into a scratch directory.

Used by every check.  The result is cached under a directory named by the hash of
the sources (so several checks in one sandbox share it), always outside /repo.
The compile flags are those of the project's own build (config.inc)."""
import hashlib, os, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("POTION_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", "/tmp/verif-potion-build")
CORE = "asm ast compile contrib gc internal lick mt19937ar number objmodel primitive string syntax table vm callcc file load vm-x86".split()

class BuildError(Exception):
    pass

def sources():
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-c", "-o", "--exclude-standard"],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    files = []
    if out.returncode == 0 and out.stdout:
        files = sorted(set(f for f in out.stdout.decode().split("\0") if f))
    else:
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "_build")]
            for f in fs:
                files.append(os.path.relpath(os.path.join(d, f), REPO))
        files.sort()
    return [f for f in files if os.path.isfile(os.path.join(REPO, f))
            and not f.startswith(("_build/", "example/", "3rd/"))]

def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fd:
            h.update(fd.read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]

def run(cmd, cwd, env=None, ok=(0,), out=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE if out else subprocess.STDOUT)
    if r.returncode not in ok:
        raise BuildError("%s failed: %s" % (" ".join(cmd), (r.stdout or r.stderr or b"").decode(errors="replace")[-3000:]))
    return r

def build():
    """Returns the directory that holds bin/potion, bin/greg, lib/libpotion.a, core/ ..."""
    files = sources()
    d = os.path.join(CACHE, tree_hash(files))
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".built")):
            return d
        # keep the cache small: drop older builds
        for o in sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE)), key=os.path.getmtime)[:-4]:
            if os.path.isdir(o):
                shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in files:
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), p)
        _build(d)
        open(os.path.join(d, ".built"), "w").close()
    return d

def _build(d):
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/tmp",
           "GIT_CEILING_DIRECTORIES": os.path.dirname(d)}
    for p in ("bin", "lib/potion"):
        os.makedirs(os.path.join(d, p), exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        greg = ex.submit(_greg, d, env)
        run(["make", "CC=clang", "AR=ar", "-f", "config.mak", "config"], d, env)
        inc = {}
        for line in open(os.path.join(d, "config.inc")):
            if "=" in line and not line.startswith("#"):
                k, v = line.split("=", 1)
                inc[k.strip()] = v.strip()
        def exp(s):
            import re
            for _ in range(4):
                s = re.sub(r"\$\{(\w+)\}", lambda m: inc.get(m.group(1), ""), s)
            return s.split()
        cflags = exp(inc["CFLAGS"]) + ["-w", "-DVERIF_GC_STRESS"]
        dbg = exp(inc["DEBUGFLAGS"])
        incs = ["-I" + os.path.join(d, "core"), "-I/usr/local/include"]
        def cc(src, obj, extra=()):
            run(["clang", "-c", "-fPIC"] + cflags + list(extra) + incs + ["-o", obj, src], d, env)
            return obj
        jobs = []
        def cobj(n):
            ex_ = ["-O0", "-fno-omit-frame-pointer"] if n == "callcc" else (["-O0"] if n == "potion" else [])
            return ex.submit(cc, "core/%s.c" % n, "core/%s.o" % n, ex_)
        for n in sorted(CORE + ["potion"], key=lambda n: n not in ("vm", "vm-x86", "gc", "table", "string")):
            if n != "syntax":
                jobs.append(cobj(n))
        libs = {n: ex.submit(cc, "lib/%s.c" % n, "lib/%s.o" % n) for n in ("buffile", "aio", "database")}
        rl = [ex.submit(cc, "lib/readline/%s.c" % n, "lib/readline/%s.o" % n) for n in ("readline", "linenoise")]
        greg.result()
        with open(os.path.join(d, "core/syntax.c"), "wb") as f:
            run(["bin/greg", "core/syntax.y"], d, env, out=f)
        jobs.append(cobj("syntax"))
        for j in jobs + list(libs.values()) + rl:
            j.result()
        objs = ["core/%s.o" % n for n in CORE]
        run(["ar", "rcs", "lib/libpotion.a"] + objs, d, env)
        so = ["-shared", "-fpic", "-Wl,--as-needed"]
        rp = ["-L" + os.path.join(d, "lib"), "-Wl,-rpath=" + os.path.join(d, "lib")]
        run(["clang"] + dbg + ["-o", "lib/libpotion.so"] + so + objs + ["-lm", "-ldl"], d, env)
        # make sure the loadable libraries use the shared libpotion
        l = [ex.submit(run, ["clang"] + cflags + ["core/potion.o", "-o", "bin/potion"] + rp + ["-l:libpotion.so", "-lm", "-ldl"], d, env)]
        for n, e in (("buffile", []), ("aio", ["-luv", "-lpthread"]), ("database", ["-lsqlite3"])):
            l.append(ex.submit(run, ["clang"] + dbg + ["-o", "lib/potion/%s.so" % n] + so + ["lib/%s.o" % n] + rp + ["-l:libpotion.so"] + e + ["-lm", "-ldl"], d, env))
        l.append(ex.submit(run, ["clang"] + dbg + ["-o", "lib/potion/readline.so"] + so + ["lib/readline/readline.o", "lib/readline/linenoise.o"] + rp + ["-l:libpotion.so", "-lm", "-ldl"], d, env))
        for j in l:
            j.result()

def _greg(d, env):
    def g(src, out):
        run(["clang", "-O1", "-w", "-DNDEBUG", "-o", out, src, "tools/compile.c", "tools/tree.c", "-Itools"], d, env)
    g("tools/greg.c", "bin/greg0")
    with open(os.path.join(d, "tools/greg-new.c"), "wb") as f:
        run([os.path.join(d, "bin/greg0"), "tools/greg.y"], d, env, out=f)
    g("tools/greg-new.c", "bin/greg")

def cflags(d):
    return ["-D_GNU_SOURCE", "-DVERIF_GC_STRESS", "-fno-strict-aliasing", "-msse2", "-w", "-I" + os.path.join(d, "core")]

if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
