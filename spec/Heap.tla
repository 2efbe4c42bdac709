-------------------------------- MODULE Heap --------------------------------
(* What a program can reach: variables and the fields of lists, tables, objects and closures holding nil,
   strings and numbers made anew, and references to one another.  Garbage is made and collected
   everywhere; no step of this specification is affected by that.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, Depth, Vars, MaxNodes, MaxSlots, Alphabet, Setup, Ask
VARIABLES heap, reg, h
vars == <<heap, reg, h>>
Kinds == {"l", "t", "o", "c"}          \* list, table, object, closure over three variables
Nil == <<"n", 0>>
\* fields: numbered from 1; objects and closures have three
IsNode(v) == v[1] = "p"
Node(v) == heap[v[2]]
Val(e) == IF e[1] = "v" THEN reg[e[2]] ELSE e
TypeOK == /\ \A i \in 1..Len(heap): heap[i].k \in Kinds /\ Len(heap[i].c) \in 1..MaxSlots /\ (heap[i].k \in {"o", "c"} => Len(heap[i].c) = 3)
          /\ \A v \in Vars: IsNode(reg[v]) => reg[v][2] \in 1..Len(heap)
          /\ \A i \in 1..Len(heap): \A j \in 1..Len(heap[i].c): IsNode(heap[i].c[j]) => heap[i].c[j][2] \in 1..Len(heap)
\* a path: a variable and the fields to follow; walked as far as it leads
RECURSIVE Walk(_, _)
Walk(v, is) == IF is = <<>> \/ ~IsNode(v) \/ Head(is) > Len(Node(v).c) THEN <<<<>>, v>>
               ELSE LET r == Walk(Node(v).c[Head(is)], Tail(is)) IN <<<<<<Node(v).k, Head(is)>>>> \o r[1], r[2]>>
\* what is printed of a value: nodes print their number
Shown(v) == IF IsNode(v) THEN <<"p", v[2], Node(v).k>> ELSE <<v[1], v[2], "">>
Look(p) == LET w == Walk(reg[p[1]], p[2]) IN <<p[1], w[1], Shown(w[2])>>
Same(p, q) == LET a == Walk(reg[p[1]], p[2]) b == Walk(reg[q[1]], q[2]) IN <<p[1], a[1], q[1], b[1], a[2] = b[2], IsNode(a[2]) /\ IsNode(b[2])>>
Done(op, a) == h' = Append(h, [op |-> op, a |-> a])

Let(v, e) == reg' = [reg EXCEPT ![v] = Val(e)] /\ UNCHANGED heap /\ Done(<<"let", v, e>>, <<>>)
New(v, k, es) == /\ heap' = Append(heap, [k |-> k, c |-> [i \in 1..Len(es) |-> Val(es[i])]])
                 /\ reg' = [reg EXCEPT ![v] = <<"p", Len(heap) + 1>>]
                 /\ Done(<<"new", v, k, es, Len(heap) + 1>>, <<>>)
Put(v, i, e) == IsNode(reg[v]) /\ i \in 1..Len(Node(reg[v]).c) /\ heap' = [heap EXCEPT ![reg[v][2]].c[i] = Val(e)]
                /\ UNCHANGED reg /\ Done(<<"put", v, i, e, Node(reg[v]).k>>, <<>>)
Push(v, e) == IsNode(reg[v]) /\ Node(reg[v]).k \in {"l", "t"} /\ Len(Node(reg[v]).c) < MaxSlots
              /\ heap' = [heap EXCEPT ![reg[v][2]].c = Append(@, Val(e))]
              /\ UNCHANGED reg /\ Done(<<"push", v, Len(Node(reg[v]).c) + 1, e, Node(reg[v]).k>>, <<>>)
Load(v, p) == LET w == Walk(reg[p[1]], p[2]) IN reg' = [reg EXCEPT ![v] = w[2]] /\ UNCHANGED heap /\ Done(<<"load", v, p[1], w[1]>>, <<>>)
\* a field of what a path leads to
PutAt(p, i, e) == LET w == Walk(reg[p[1]], p[2]) IN IsNode(w[2]) /\ i \in 1..Len(Node(w[2]).c)
                  /\ heap' = [heap EXCEPT ![w[2][2]].c[i] = Val(e)] /\ UNCHANGED reg /\ Done(<<"putat", p[1], w[1], i, e, Node(w[2]).k>>, <<>>)
Junk(n) == UNCHANGED <<heap, reg>> /\ Done(<<"junk", n>>, <<>>)
\* questions about the present
Asked(ps, qs) == UNCHANGED <<heap, reg>> /\ Done(<<"ask">>, <<[i \in 1..Len(ps) |-> Look(ps[i])], [i \in 1..Len(qs) |-> Same(qs[i][1], qs[i][2])]>>)
Do(o) == CASE o[1] = "let" -> Let(o[2], o[3]) [] o[1] = "new" -> New(o[2], o[3], o[4]) [] o[1] = "put" -> Put(o[2], o[3], o[4]) [] o[1] = "push" -> Push(o[2], o[3])
           [] o[1] = "load" -> Load(o[2], o[3]) [] o[1] = "putat" -> PutAt(o[2], o[3], o[4]) [] o[1] = "junk" -> Junk(o[2]) [] o[1] = "ask" -> Asked(o[2], o[3])

(* bfs: Setup, then every sequence of Alphabet, then the questions *)
BfsStep == LET n == Len(h) IN
  IF n < Len(Setup) THEN Do(Setup[n + 1])
  ELSE IF n < Len(Setup) + Depth THEN \E i \in 1..Len(Alphabet): Do(Alphabet[i])
  ELSE n = Len(Setup) + Depth /\ Do(Ask)

(* sim: random steps *)
R(S) == RandomElement(S)
Pick(S) == {R(S)}
LiveV == {v \in Vars: IsNode(reg[v])}
E(d) == LET k == R(1..10) IN CASE k < 4 -> <<"s", R(1..99)>> [] k = 4 -> <<"d", R(1..99)>> [] k = 5 -> Nil [] OTHER -> <<"v", R(Vars)>>
Draw(n, Op(_)) == FoldLeft(LAMBDA a, i: Append(a, Op(i)), <<>>, [i \in 1..n |-> i])
Field(i) == R(1..(4 + 0 * i))
Path(d) == <<R(Vars), Draw(R(0..3), Field)>>
LivePath(d) == <<R(LiveV), Draw(R(0..3), Field)>>
Pair(d) == <<LivePath(d), Path(d)>>
Sim == Len(h) < Depth /\ \E t \in 1..5: \E k \in Pick(1..(22 + 0 * t)):
  IF (k < 5 /\ Len(heap) < MaxNodes) \/ LiveV = {} THEN \E v \in Pick(Vars): \E kd \in Pick(Kinds): \E es \in {Draw(3 + 0 * t, E)}: New(v, kd, es)
  ELSE IF k < 8 THEN \E v \in Pick(LiveV): \E i \in Pick(1..Len(Node(reg[v]).c)): \E e \in {E(t)}: Put(v, i, e)
  ELSE IF k < 11 THEN \E p \in {LivePath(t)}: \E e \in {E(t)}: \E i \in Pick(1..3): PutAt(p, i, e)
  ELSE IF k < 14 THEN \E v \in Pick(LiveV): \E e \in {E(t)}: Push(v, e)
  ELSE IF k = 14 THEN \E v \in Pick(Vars): \E e \in {E(t)}: Let(v, e)
  ELSE IF k < 17 THEN \E v \in Pick(Vars): \E p \in {LivePath(t)}: Load(v, p)
  ELSE IF k = 17 THEN \E n \in Pick({1, 5, 50, 400}): Junk(n)
  ELSE \E ps \in {Draw(4 + 0 * t, LivePath)}: \E qs \in {Draw(2 + 0 * t, Pair)}: Asked(ps, qs)
Init == heap = <<>> /\ reg = [v \in Vars |-> Nil] /\ h = <<>>
Next == IF Mode = "bfs" THEN BfsStep ELSE Sim
Spec == Init /\ [][Next]_vars
\* stores through one path are seen through every other path to the same node, and nothing else changes
Written == [][Len(h') > Len(h) /\ heap' # heap =>
                 \/ Len(heap') = Len(heap) + 1 /\ SubSeq(heap', 1, Len(heap)) = heap
                 \/ Len(heap') = Len(heap) /\ Cardinality({i \in 1..Len(heap): heap'[i] # heap[i]}) = 1]_vars
Emit == (Mode = "bfs" /\ Len(h) = Len(Setup) + Depth + 1) \/ (Mode = "sim" /\ Len(h) = Depth) => PrintT(<<"@P", ToJson(h)>>)
=============================================================================
