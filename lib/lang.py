"""Program generation by Lang.tla"""
from vlib import *
from prog import *
FULL = {"inc", "if", "while", "block", "ret", "fn", "str", "list", "opt"}
def random_programs(ctx, num, depth=10, feat=FULL, size=2, nv=60, procs=NCPU, timeout=600):
    recs = tlc_sim(ctx, "Lang", dict(Mode="sim", Depth=depth, Feat=set(feat), Size=size, NV=nv, Alphabet=[], Prelude=[], Finale=[]), num=num, depth=depth + 1,
                   invariants=["Emit", "WellFormed"], procs=procs, timeout=timeout)
    return [Prog("\n".join(r["src"]) + "\n", "".join(l + "\n" for l in r["out"])) for r in recs if r["out"]]
def all_programs(ctx, alphabet="<<>>", depth=1, prelude="<<>>", finale="<<>>", workers=8, timeout=600, heap="6g", spec="Spec", size=1):
    """alphabet, prelude, finale, spec: names of definitions of Alpha.tla"""
    recs = tlc_bfs(ctx, "Alpha", dict(Mode="bfs", Depth=depth, Feat=set(), Size=size, NV=1, Alphabet=("tla", alphabet), Prelude=("tla", prelude),
                   Finale=("tla", finale)), workers=workers, invariants=["Emit", "WellFormed"], timeout=timeout, heap=heap, spec=spec).records
    return [Prog("\n".join(r["src"]) + "\n", "".join(l + "\n" for l in r["out"])) for r in recs]
