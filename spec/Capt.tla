--------------------------------- MODULE Capt ---------------------------------
(* Functions with many variables and closures over many of them, made through closures in between.
   Every call of the function has variables of its own, which its closures share.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Sizes, MaxV, Depth
VARIABLES fn, inst, log, n
vars == <<fn, inst, log, n>>
R(T) == RandomElement(T)
Draw(k, Op(_)) == FoldLeft(LAMBDA a, i: Append(a, Op(i)), <<>>, [i \in 1..k |-> i])
Size(x) == LET k == R(Sizes \cup {0 * x}) IN IF k > MaxV THEN MaxV ELSE k
(* a random sequence of k of 1..m, in order *)
Some(k, m, x) == IF k >= m THEN [i \in 1..m |-> i] ELSE LET off == R(0..(m - k + 0 * x)) gap == R(1..(4 + 0 * x)) IN
  SelectSeq([i \in 1..m |-> i], LAMBDA v: v > off /\ v <= off + k) \o (IF off > gap THEN <<gap>> ELSE <<>>)
(* what a closure does with an argument a: writes <<variable, how, number>>, then gives the variables it reads and its own ones *)
Write(k, x) == <<R(1..(k + 0 * x)), R({"add", "set", "copy"} \cup (IF x > 999 THEN {""} ELSE {})), R(1..(k + 0 * x))>>
Closure(k, x) == [reads |-> IF k = 0 THEN <<>> ELSE Some(Size(x), k, x), writes |-> IF k = 0 THEN <<>> ELSE Draw(R(0..(5 + 0 * x)), LAMBDA i: Write(k, x + i)),
                  level |-> R(0..(3 + 0 * x)), own |-> IF R(1..(3 + 0 * x)) = 1 THEN Size(x) ELSE R(0..(2 + 0 * x))]
After(vs, ws, a) == FoldLeft(LAMBDA v, w: [v EXCEPT ![w[1]] = CASE w[2] = "add" -> @ + a [] w[2] = "set" -> 7 * w[3] [] OTHER -> v[w[3]]], vs, ws)
Init == fn = <<>> /\ inst = <<>> /\ log = <<>> /\ n = 0
Declare == \E k \in {Size(n)}: \E c \in {R(1..(4 + n))}: \E cs \in {Draw(c, LAMBDA i: Closure(k, i))}: fn' = <<[k |-> k, cs |-> cs]>> /\ UNCHANGED <<inst, log>>
New == Len(inst) < 4 /\ \E b \in {R(10..(99 + 0 * n))}: inst' = Append(inst, [i \in 1..fn[1].k |-> b + i]) /\ UNCHANGED fn /\ log' = Append(log, [op |-> <<"new", b>>, out |-> <<>>])
Call(t) == \E i \in {R(1..(Len(inst) + 0 * t))}: \E c \in {R(1..(Len(fn[1].cs) + 0 * t))}: \E a \in {R(0..(50 + 0 * t))}:
  LET q == fn[1].cs[c] v == After(inst[i], q.writes, a) IN
  /\ inst' = [inst EXCEPT ![i] = v] /\ UNCHANGED fn
  /\ log' = Append(log, [op |-> <<"call", i, c, a>>, out |-> [j \in 1..Len(q.reads) |-> v[q.reads[j]]] \o [j \in 1..q.own |-> a + j]])
Next == n < Depth /\ n' = n + 1 /\ IF n = 0 THEN Declare ELSE \E t \in {R(1..(6 + 0 * n))}: IF inst = <<>> \/ (t = 1 /\ Len(inst) < 4) THEN New ELSE Call(t)
Spec == Init /\ [][Next]_vars
(* a call changes one instance, and of it the variables it writes *)
Frame == [][\A i \in 1..Len(inst): inst'[i] # inst[i] => log'[Len(log')].op[1] = "call" /\ log'[Len(log')].op[2] = i /\
             \A v \in DOMAIN inst[i]: inst'[i][v] # inst[i][v] => \E w \in Range(fn[1].cs[log'[Len(log')].op[3]].writes): w[1] = v]_vars
Emit == n = Depth => PrintT(<<"@P", ToJson([f |-> fn[1], l |-> log])>>)
=============================================================================
