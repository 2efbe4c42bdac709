--------------------------------- MODULE Wide ---------------------------------
(* Classes with many fields and methods, and programs with many classes.  A class has the fields of its parent and
   its own; its constructor, or else its parent's, sets some; a method is found in the class or else in its ancestors. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS NF, NM, Sizes, Fills, Depth
VARIABLES cls, obj, log, n
vars == <<cls, obj, log, n>>
R(T) == RandomElement(T)
Draw(k, Op(_)) == FoldLeft(LAMBDA a, i: Append(a, Op(i)), <<>>, [i \in 1..k |-> i])
Few(k, m, x) == SubSeq(FoldLeft(LAMBDA a, y: LET j == R(0..(Len(a) + 0 * y)) IN SubSeq(a, 1, j) \o <<y>> \o SubSeq(a, j + 1, Len(a)), <<>>, [i \in 1..m |-> i]), 1, k + 0 * x)
Nil == <<"n">>
IntV(i) == <<"i", i>>
(* [par, fs: the names of the fields its constructor sets, in order (<<>>: no constructor), ms: method -> field it reads] *)
RECURSIVE Fields(_, _), Ctor(_, _), Find(_, _, _)
Fields(cs, c) == IF c = 0 THEN {} ELSE Range(cs[c].fs) \cup Fields(cs, cs[c].par)
Ctor(cs, c) == IF c = 0 THEN <<0, <<>>>> ELSE IF cs[c].fs # <<>> THEN <<c, cs[c].fs>> ELSE Ctor(cs, cs[c].par)
Find(cs, c, m) == IF c = 0 THEN <<>> ELSE IF m \in DOMAIN cs[c].ms THEN <<c, cs[c].ms[m]>> ELSE Find(cs, cs[c].par, m)
Get(o, f) == IF f \in DOMAIN obj[o].f THEN obj[o].f[f] ELSE Nil
(* what a method answers: its class, its number, and the field it reads of the receiver *)
Send(o, m) == LET d == Find(cls, obj[o].c, m) IN IF d = <<>> THEN Nil ELSE <<"l", <<IntV(d[1] * 1000 + m), Get(o, d[2])>>>>
Init == cls = <<>> /\ obj = <<>> /\ log = <<>> /\ n = 0
Put(op, out) == log' = Append(log, [op |-> op, out |-> out])
Fill(k) == UNCHANGED <<cls, obj>> /\ Put(<<"fill", k>>, Nil)
Class(p, k, nm, x) == \E fs \in {Few(k, NF, x)}: \E ms \in {Few(nm, NM, x)}: \E rd \in {Draw(nm, LAMBDA i: R(1..(NF + 0 * i)))}:
   LET mf == [m \in Range(ms) |-> rd[CHOOSE i \in 1..nm: ms[i] = m]] IN
   /\ cls' = Append(cls, [par |-> p, fs |-> fs, ms |-> mf]) /\ UNCHANGED obj /\ Put(<<"class", p, fs, [i \in 1..nm |-> <<ms[i], rd[i]>>]>>, Nil)
New(c) == LET t == Ctor(cls, c) IN obj' = Append(obj, [c |-> c, f |-> [f \in Fields(cls, c) |-> IF f \in Range(t[2]) THEN IntV(t[1] * 1000 + f) ELSE Nil]]) /\ UNCHANGED cls /\ Put(<<"new", c>>, Nil)
\* only fields the object has are set
Set(o, f, v) == f \in DOMAIN obj[o].f /\ obj' = [obj EXCEPT ![o].f[f] = v] /\ UNCHANGED cls /\ Put(<<"set", o, f, v>>, Nil)
Def(c, m, f) == cls' = [cls EXCEPT ![c].ms = (m :> f) @@ @] /\ UNCHANGED obj /\ Put(<<"def", c, m, f>>, Nil)
Q(x) == LET o == R(1..(Len(obj) + 0 * x)) k == R(1..(5 + 0 * x)) F == DOMAIN obj[o].f f == IF F = {} \/ k = 1 THEN R(1..(NF + 0 * x)) ELSE R(F)
            M == UNION {DOMAIN cls[c].ms: c \in 1..Len(cls)} m == IF M = {} \/ k = 5 THEN R(1..(NM + 0 * x)) ELSE R(M) IN
  IF R(1..(3 + 0 * x)) < 3 THEN <<"get", o, f>> ELSE <<"send", o, m>>
Answer(q) == IF q[1] = "get" THEN Get(q[2], q[3]) ELSE Send(q[2], q[3])
Ask(t) == \E qs \in {Draw(R(3..(9 + 0 * t)), Q)}: UNCHANGED <<cls, obj>> /\ Put(<<"ask", qs>>, [i \in 1..Len(qs) |-> Answer(qs[i])])
Step == \E t \in {R(1..(12 + 0 * n))}:
  CASE n = 0 -> Fill(R(Fills \cup {0 * n}))
    [] cls = <<>> \/ (t = 1 /\ Len(cls) < 5) -> \E p \in {R(0..(Len(cls) + 0 * t))}: \E k \in {R(Sizes \cup {0 * t})}: \E nm \in {R(Sizes \cup {0 * t})}: Class(p, IF k > NF THEN NF ELSE k, IF nm > NM THEN NM ELSE nm, t)
    [] obj = <<>> \/ (t = 2 /\ Len(obj) < 8) -> New(R(1..(Len(cls) + 0 * t)))
    [] t = 3 -> Fill(R({1 + 0 * t, 2, 40}))
    [] t = 4 -> Def(R(1..(Len(cls) + 0 * t)), R(1..(NM + 0 * t)), R(1..(NF + 0 * t)))
    [] t \in 5..8 -> \E o \in {R(1..(Len(obj) + 0 * t))}: IF DOMAIN obj[o].f = {} THEN Ask(t) ELSE \E f \in {R(DOMAIN obj[o].f)}: Set(o, f, IF R(1..(6 + 0 * t)) = 1 THEN Nil ELSE IntV(R(5000..(9000 + t))))
    [] OTHER -> Ask(t)
Next == n < Depth /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars
(* an object has exactly the fields of its chain; what a class does not define it inherits *)
Sane == /\ \A o \in 1..Len(obj): DOMAIN obj[o].f = Fields(cls, obj[o].c)
        /\ \A c \in 1..Len(cls): cls[c].par < c /\ \A m \in 1..NM: Find(cls, c, m) = IF m \in DOMAIN cls[c].ms THEN <<c, cls[c].ms[m]>> ELSE Find(cls, cls[c].par, m)
Emit == n = Depth => PrintT(<<"@P", ToJson(log)>>)
=============================================================================
