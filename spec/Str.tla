-------------------------------- MODULE Str ---------------------------------
(* Strings (immutable sequences of code points, compared by contents), byte buffers and
   lists of them in a heap, and the operations that build one from the other.
   A value is <<"n">>, <<"i", k>>, <<"s", code points>>, <<"b", address>> or <<"l", address>>. *)
EXTENDS Utf8, TLC, Json, FiniteSets
CONSTANTS NR, Depth, Texts, Nums, MaxLen, Gcs, Mode,
          Ops          \* names of the operations used
VARIABLES regs, heap, hist, mut
vars == <<regs, heap, hist, mut>>

Nil == <<"n">>
I(k) == <<"i", k>>
S(t) == <<"s", t>>
R == 1..NR
IsS(v) == v[1] = "s"
IsB(v) == v[1] = "b"
IsL(v) == v[1] = "l"
Bts(v) == IF IsS(v) THEN Utf8(v[2]) ELSE heap[v[2]].v       \* bytes of a string or buffer
Sum(s) == FoldLeft(LAMBDA a, x: a + x, 0, s)

\* the number an index stands for in a text of n characters
Pos(i, n) == IF i < 0 THEN (IF n + i < 0 THEN 0 ELSE n + i) ELSE IF i > n THEN n ELSE i
Sub(s, a, b) == SubSeq(s, a + 1, b)
StrAt(s, i) == LET p == Pos(i, Len(s)) IN IF p >= Len(s) THEN <<>> ELSE <<s[p + 1]>>
StrOrd(s, i) == IF i < 0 \/ i >= Len(s) THEN 0 ELSE s[i + 1]
SliceDefined(s, i, j) == /\ Pos(i, Len(s)) <= Pos(j, Len(s)) /\ ~(i >= 0 /\ j >= 0 /\ j < i)
Sign(a, b) == IF a = b THEN 0 ELSE IF LexLess(a, b) THEN -1 ELSE 1
IsNum(s) == /\ Len(s) \in 1..10 /\ LET d == IF s[1] \in {43, 45} THEN Tail(s) ELSE s IN Len(d) \in 1..9 /\ \A i \in 1..Len(d): d[i] \in 48..57
NumOf(s) == LET d == IF s[1] \in {43, 45} THEN Tail(s) ELSE s  v == FoldLeft(LAMBDA t, c: t * 10 + (c - 48), 0, d) IN IF s[1] = 45 THEN -v ELSE v
Join(l, sep) == IF l = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x: a \o sep \o x, l[1], Tail(l))
\* printing values
RECURSIVE Show(_)
Show(v) == CASE v[1] = "n" -> <<110, 105, 108>> [] v[1] = "i" -> Digits(v[2]) [] v[1] = "s" -> v[2]
  [] v[1] = "b" -> Dec(heap[v[2]].v).s
  [] v[1] = "l" -> LET l == heap[v[2]].v IN <<40>> \o Join([i \in 1..Len(l) |-> Show(l[i])], <<44, 32>>) \o <<41>>

Result(d, o, a, v, h, m) ==
  /\ regs' = [regs EXCEPT ![d] = v] /\ heap' = h /\ mut' = m
  /\ hist' = Append(hist, [o |-> o, d |-> d - 1, a |-> a, regs |-> IF Mode = "sim" THEN [i \in R |-> regs'[i]] ELSE <<>>, heap |-> IF Mode = "sim" THEN h ELSE <<>>])
Value(d, o, a, v) == Result(d, o, a, v, heap, mut)
New(d, o, a, k, c, t) == Result(d, o, a, <<t, Len(heap) + 1>>, Append(heap, [k |-> k, v |-> c]), mut)
\* operands in the history: <<"R", register>> or a value
Reg(x) == <<"R", x - 1>>

\* every choice when exploring, one choice when simulating
Dom(T) == IF Mode = "sim" /\ T # {} THEN {RandomElement(T)} ELSE T
Idx(n) == IF Mode = "sim" THEN {RandomElement((-n - 2)..(n + 2))} ELSE {-n - 1, -n, -1, 0, 1, n - 1, n, n + 1}
Kind(k) == {i \in R: regs[i][1] \in k}
Recv == [o \in Ops |-> CASE o \in {"call", "length"} -> {"s", "b"} [] o \in {"ord", "slice", "number", "bytes", "+", "cmp"} -> {"s"}
  [] o = "append" -> {"b"} [] o \in {"push", "pop", "join"} -> {"l"} [] o = "clone" -> {"s", "b"} [] o = "tup" -> {"s", "i", "b"} [] OTHER -> {"n", "s", "b", "i", "l"}]
Arg == [o \in Ops |-> CASE o \in {"+", "cmp", "join"} -> {"s"} [] o \in {"append", "tup"} -> {"s", "b"} [] OTHER -> {"n", "s", "b", "i"}]

Step(o, d) ==
  \/ o = "lit" /\ \E t \in Dom(Texts): Value(d, o, <<S(t)>>, S(t))
  \/ o = "num" /\ \E k \in Dom(Nums): Value(d, o, <<I(k)>>, I(k))
  \/ \E x \in Dom(Kind(Recv[o])): LET X == regs[x]  a == <<Reg(x)>> IN
     \/ o = "mov" /\ x # d /\ Value(d, o, a, X)
     \/ o = "length" /\ (IsS(X) \/ IsB(X)) /\ Value(d, o, a, I(IF IsS(X) THEN Len(X[2]) ELSE Len(Bts(X))))
     \/ o = "call" /\ IsS(X) /\ \E i \in Idx(Len(X[2])): Value(d, o, Append(a, I(i)), S(StrAt(X[2], i)))
     \/ o = "call" /\ IsB(X) /\ \E i \in Idx(Len(Bts(X))): LET b == Bts(X) IN
          IF i \in 0..Len(b) - 1 THEN New(d, o, Append(a, I(i)), "B", <<b[i + 1]>>, "b") ELSE Value(d, o, Append(a, I(i)), Nil)
     \/ o = "ord" /\ IsS(X) /\ \E i \in Idx(Len(X[2])) \cap 0..MaxLen + 1: Value(d, o, Append(a, I(i)), I(StrOrd(X[2], i)))
     \/ o = "slice" /\ IsS(X) /\ LET n == Len(X[2]) IN \E i \in Idx(n), j \in Idx(n) \cup (IF Mode = "sim" THEN {} ELSE {n \div 2, 70000}):
          SliceDefined(X[2], i, j) /\ Value(d, o, Append(Append(a, I(i)), I(j)), S(Sub(X[2], Pos(i, n), Pos(j, n))))
     \/ o = "number" /\ IsS(X) /\ IsNum(X[2]) /\ Value(d, o, a, I(NumOf(X[2])))
     \/ o = "string" /\ (X[1] \in {"i", "s"}) /\ Value(d, o, a, S(Show(X)))
     \/ o = "string" /\ IsB(X) /\ Dec(Bts(X)).ok /\ Value(d, o, a, S(Dec(Bts(X)).s))
     \/ o = "string" /\ IsL(X) /\ Len(heap[X[2]].v) < 8 /\ (\A i \in 1..Len(heap[X[2]].v): LET y == heap[X[2]].v[i] IN y[1] \in {"s", "i", "n"} /\ (IsS(y) => Len(y[2]) < 60))
          /\ Value(d, o, a, S(Show(X)))
     \/ o = "bytes" /\ IsS(X) /\ New(d, o, a, "B", Utf8(X[2]), "b")
     \/ o = "clone" /\ IsS(X) /\ Value(d, o, a, X)
     \/ o = "clone" /\ IsB(X) /\ New(d, o, a, "B", Bts(X), "b")
     \/ \E y \in Dom(Kind(Arg[o])): LET Y == regs[y]  b == <<Reg(x), Reg(y)>> IN
        \/ o = "+" /\ IsS(X) /\ IsS(Y) /\ Len(X[2]) + Len(Y[2]) <= MaxLen /\ Value(d, o, b, S(X[2] \o Y[2]))
        \/ o = "cmp" /\ IsS(X) /\ IsS(Y) /\ Value(d, o, b, I(Sign(X[2], Y[2])))
        \/ o = "append" /\ IsB(X) /\ (IsS(Y) \/ IsB(Y)) /\ Len(Bts(X)) + Len(Bts(Y)) <= 3 * MaxLen
             /\ Result(d, o, b, X, [heap EXCEPT ![X[2]].v = @ \o Bts(Y)], mut \cup {X[2]})
        \/ o = "tup" /\ ~IsL(X) /\ ~IsL(Y) /\ New(d, o, b, "L", <<X, Y>>, "l")
        \/ o = "push" /\ IsL(X) /\ ~IsL(Y) /\ Len(heap[X[2]].v) < 6 /\ Result(d, o, b, X, [heap EXCEPT ![X[2]].v = Append(@, Y)], mut)
        \/ o = "pop" /\ x = y /\ IsL(X) /\ LET l == heap[X[2]].v IN l # <<>>
             /\ Result(d, o, a, l[Len(l)], [heap EXCEPT ![X[2]].v = SubSeq(@, 1, Len(@) - 1)], mut)
        \/ o = "join" /\ IsL(X) /\ IsS(Y) /\ LET l == heap[X[2]].v IN (\A i \in 1..Len(l): IsS(l[i])) /\ Len(Y[2]) < 30
             /\ LET j == Join([i \in 1..Len(l) |-> l[i][2]], Y[2]) IN Len(j) <= MaxLen /\ Value(d, o, b, S(j))
Gc(g) == /\ hist # <<>> /\ hist[Len(hist)].o # "gc" /\ UNCHANGED <<regs, heap, mut>>
         /\ hist' = Append(hist, [o |-> "gc", d |-> 0, a |-> <<<<"g", g>>>>, regs |-> IF Mode = "sim" THEN [i \in R |-> regs[i]] ELSE <<>>, heap |-> IF Mode = "sim" THEN heap ELSE <<>>])
Init == regs = [i \in R |-> Nil] /\ heap = <<>> /\ hist = <<>> /\ mut = {}
End == /\ Len(hist) = Depth /\ Mode = "sim" /\ UNCHANGED <<regs, heap, mut>>       \* so that each simulated behaviour is printed once
       /\ hist' = Append(hist, [o |-> "end"])
Next == \/ End
        \/ /\ Len(hist) < Depth
           /\ IF Mode = "bfs" THEN (\E o \in Ops: \E d \in R: Step(o, d)) \/ \E g \in Gcs: Gc(g)
              ELSE (\E k \in 1..8: \E o \in Dom(Ops): \E d \in Dom(R): Step(o, d)) \/ \E d \in Dom(R): Step("lit", d) \/ \E g \in Dom(Gcs): Gc(g)
Spec == Init /\ [][Next]_vars

\* properties of the model itself
Reach(v) == IF v[1] \in {"b", "l"} THEN v[2] \in 1..Len(heap) ELSE TRUE
TypeOK == \A i \in R: LET v == regs[i] IN Reach(v) /\ (IsS(v) => /\ Dec(Utf8(v[2])) = [ok |-> TRUE, s |-> v[2]]
   /\ \A t \in Texts: /\ (Utf8(t) = Utf8(v[2])) = (t = v[2])                      \* equal bytes iff equal characters
                      /\ Sign(Utf8(t), Utf8(v[2])) = Sign(t, v[2]))               \* byte order is character order
Decodes == \A i \in R: IsS(regs[i]) => Dec(Utf8(regs[i][2])).ok
\* a text cut anywhere and put together again is the text
CutLaw == \A i \in R: LET v == regs[i] IN IsS(v) => \A k \in 0..Len(v[2]): Sub(v[2], 0, k) \o Sub(v[2], k, Len(v[2])) = v[2]
\* buffers only change by append, strings never
Unchanged == [][\A a \in 1..Len(heap): heap[a].k = "B" => (heap'[a] = heap[a] \/ (a \in mut' /\ IsPrefix(heap[a].v, heap'[a].v)))]_vars
Full == Len(hist) = Depth
EmitBfs == Full => PrintT(<<"@H", ToJson([h |-> hist, regs |-> regs, heap |-> heap])>>)
EmitSim == Len(hist) > Depth => PrintT(<<"@H", ToJson(SubSeq(hist, 1, Depth))>>)
=============================================================================
