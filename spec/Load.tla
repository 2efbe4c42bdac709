--------------------------------- MODULE Load ---------------------------------
(* What load runs.  fs: path -> what is there; path: the search path; each file says its own number, may put a
   directory at the end of the search path, may load another name, and ends with its number as its value.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, Dirs, Names, NLoads, Extra
VARIABLES fs, path, log, n
vars == <<fs, path, log, n>>
Exts == <<".pnb", ".pn", ".so">>
Default == <<"lib/potion", "/usr/local/lib/potion", ".">>
\* names are <<directory part with its slash, base, what a file of just that name is>>
Str(nm) == nm[1] \o nm[2]
Cands(nm) == <<Str(nm)>> \o [i \in 1..3 |-> Str(nm) \o Exts[i]] \o <<Str(nm) \o "/" \o nm[2]>> \o [i \in 1..3 |-> Str(nm) \o "/" \o nm[2] \o Exts[i]]
Paths == {d \o "/" \o c: d \in Dirs, c \in UNION {{Cands(nm)[i]: i \in 1..8}: nm \in Names}}
\* the first candidate of the first directory that has one
All(p, nm) == FoldLeft(LAMBDA a, d: a \o [i \in 1..8 |-> d \o "/" \o Cands(nm)[i]], <<>>, p)
Found(p, f, nm) == LET a == All(p, nm) ok == {i \in 1..Len(a): a[i] \in DOMAIN f} IN IF ok = {} THEN "" ELSE a[CHOOSE i \in ok: \A j \in ok: i <= j]
(* a file: <<number, kind, directory to add or "", name to load or <<>>>> with kind "code", "so" or "other" *)
RECURSIVE Exec(_, _, _, _)
Exec(p, f, nm, k) == LET w == Found(p, f, nm) IN
  IF w = "" THEN [path |-> p, log |-> <<<<"missing", Str(nm)>>>>, val |-> <<"nil">>]
  ELSE LET c == f[w] IN
    IF c[2] = "other" THEN [path |-> p, log |-> <<<<"unknown">>>>, val |-> <<"nil">>]
    ELSE LET q == IF c[3] = "" THEN p ELSE Append(p, c[3])
             r == IF c[4] = <<>> \/ k = 0 THEN [path |-> q, log |-> <<>>] ELSE Exec(q, f, c[4], k - 1) IN
         [path |-> r.path, log |-> <<<<"ran", c[1]>>>> \o r.log \o (IF c[2] = "so" THEN <<>> ELSE <<<<"end", c[1]>>>>), val |-> IF c[2] = "so" THEN <<"any">> ELSE <<"num", c[1]>>]
Rnd(T) == RandomElement(T)
RandomSubset(k, S) == {Rnd(S): i \in 1..k}
\* what kind of file a path is by its end
Kinds == [w \in Paths |-> LET c == CHOOSE c \in Names \X (1..8): \E d \in Dirs: w = d \o "/" \o Cands(c[1])[c[2]] IN
  IF c[2] \in {1, 5} THEN c[1][3] ELSE IF c[2] \in {4, 8} THEN "so" ELSE "code"]
KindOf(w) == Kinds[w]
\* a path that is a file cannot be the directory of another
NoClash(f) == \A d \in Dirs, nm \in Names: ~((d \o "/" \o Str(nm)) \in DOMAIN f /\ \E i \in 5..8: (d \o "/" \o Cands(nm)[i]) \in DOMAIN f)
MkFs(t) == LET s == IF Rnd(1..2) = 1 THEN RandomSubset(Rnd(1..(4 + 0 * t)), Paths) ELSE RandomSubset(Rnd(3..(14 + 0 * t)), Paths) IN
  LET o == SetToSeq(s) IN [w \in s |-> LET k == KindOf(w) IN
    <<100 + (CHOOSE i \in 1..Len(o): o[i] = w), k, IF k = "code" /\ Rnd(1..4) = 1 THEN Rnd(Dirs) ELSE "", IF k = "code" /\ Rnd(1..3) = 1 THEN Rnd(Names) ELSE <<>>>>]
Init == fs = <<>> /\ path = Default /\ log = <<>> /\ n = 0
(* a name may load a name: no cycles, judged by running at most 6 deep *)
RECURSIVE Depth(_, _, _, _)
Depth(p, f, nm, k) == IF k = 0 THEN 99 ELSE LET w == Found(p, f, nm) IN IF w = "" THEN 0 ELSE LET c == f[w] IN
   IF c[2] # "code" \/ c[4] = <<>> THEN 0 ELSE 1 + Depth(IF c[3] = "" THEN p ELSE Append(p, c[3]), f, c[4], k - 1)
Start == n = 0 /\ n' = 1 /\ UNCHANGED <<path, log>> /\ \E t \in 1..3: fs' = TLCEval(MkFs(n + t)) /\ NoClash(fs')
DoLoad == \E nm \in Names: Depth(path, fs, nm, 5) < 5 /\ LET r == Exec(path, fs, nm, 6) IN path' = r.path /\ log' = Append(log, <<"load", Str(nm), r.log, r.val>>)
DoPush == \E d \in Dirs: path' = Append(path, d) /\ log' = Append(log, <<"push", d>>)
DoSet == \E d \in Dirs, i \in 1..Len(path): path' = [path EXCEPT ![i] = d] /\ log' = Append(log, <<"set", i - 1, d>>)
DoPop == Len(path) > 1 /\ path' = Front(path) /\ log' = Append(log, <<"pop">>)
Step == n > 0 /\ n <= NLoads /\ n' = n + 1 /\ UNCHANGED fs /\ \E t \in {Rnd(1..(10 + 0 * n))}: CASE t = 1 -> DoPush [] t = 2 -> DoSet [] t = 3 -> DoPop [] OTHER -> DoLoad
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Emit == (n = NLoads + 1) => PrintT(<<"@P", ToJson([f |-> fs, l |-> log])>>)
(* what is found is there, and nothing before it on the way is *)
First == \A nm \in Names: LET w == Found(path, fs, nm) a == All(path, nm) IN
  IF w = "" THEN \A i \in 1..Len(a): a[i] \notin DOMAIN fs ELSE \E i \in 1..Len(a): a[i] = w /\ w \in DOMAIN fs /\ \A j \in 1..(i - 1): a[j] \notin DOMAIN fs
=============================================================================
