--------------------------------- MODULE Bulk ---------------------------------
(* Containers and texts large enough that the collector runs and the heap grows on its own account.
   A container is described by the layers written over it, not element by element: layer [f, n, d, k, s] puts at the places
   f, f+d, ..., f+(n-1)d new values of kind k, numbered from s.  The last layer that covers a place decides what is there. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Vars, Types, Kinds, Counts, Factors, Block, MaxLen, MaxBlocks, MaxText, Depth
VARIABLES at,       (* variable -> number of the object it names *)
          heap,     (* objects: [t |-> "list" | "table", len, lay], [t |-> "text", len] *)
          next,     (* number of the next new value *)
          log, n
vars == <<at, heap, next, log, n>>
R(T) == RandomElement(T)
Draw(k, Op(_)) == FoldLeft(LAMBDA a, i: Append(a, Op(i)), <<>>, [i \in 1..k |-> i])
Covers(l, i) == i >= l.f /\ (i - l.f) % l.d = 0 /\ (i - l.f) \div l.d < l.n
RECURSIVE Look(_, _, _)
Look(lay, j, i) == IF j = 0 THEN <<>> ELSE IF Covers(lay[j], i) THEN IF lay[j].k = "none" THEN <<>> ELSE <<lay[j].k, lay[j].s + (i - lay[j].f) \div lay[j].d>> ELSE Look(lay, j - 1, i)
Value(o, i) == IF o.t = "list" /\ (i < 0 \/ i >= o.len) THEN <<>> ELSE Look(o.lay, Len(o.lay), i)
(* tables are filled and emptied by whole blocks of keys *)
Present(o) == {b \in 0..(MaxBlocks - 1): Value(o, b * Block) # <<>>}
Size(o) == IF o.t = "table" THEN Block * Cardinality(Present(o)) ELSE o.len
Lay(f, c, d, k) == [f |-> f, n |-> c, d |-> d, k |-> k, s |-> next]
Step(op, obj, lay, used) == /\ heap' = [heap EXCEPT ![obj] = lay] /\ next' = next + used /\ log' = Append(log, op) /\ UNCHANGED at
Grow(v, c, k) == LET o == heap[at[v]] IN Step(<<"grow", v, c, k, next>>, at[v], [o EXCEPT !.len = @ + c, !.lay = Append(@, Lay(o.len, c, 1, k))], c)
Drop(v, c) == LET o == heap[at[v]] IN Step(<<"drop", v, c>>, at[v], [o EXCEPT !.len = @ - c], 0)
Over(v, f, d, k) == LET o == heap[at[v]] c == (Size(o) - f + d - 1) \div d IN
  Step(<<"over", v, f, c, d, k, next>>, at[v], [o EXCEPT !.lay = Append(@, Lay(f, c, d, k))], c)
Put(v, b, c, k) == LET o == heap[at[v]] IN Step(<<"put", v, b * Block, c * Block, k, next>>, at[v], [o EXCEPT !.lay = Append(@, Lay(b * Block, c * Block, 1, k))], c * Block)
Del(v, b) == LET o == heap[at[v]] IN Step(<<"del", v, b * Block, Block>>, at[v], [o EXCEPT !.lay = Append(@, Lay(b * Block, Block, 1, "none"))], 0)
Double(v, c) == LET o == heap[at[v]] IN (* a text is not changed: the variable names a new one *)
  /\ heap' = Append(heap, [o EXCEPT !.len = @ * c]) /\ at' = [at EXCEPT ![v] = Len(heap) + 1] /\ log' = Append(log, <<"join", v, c>>) /\ UNCHANGED next
New(v, t) == /\ heap' = Append(heap, [t |-> t, len |-> IF t = "text" THEN 7 ELSE 0, lay |-> <<>>]) /\ at' = [at EXCEPT ![v] = Len(heap) + 1] /\ log' = Append(log, <<"new", v, t>>) /\ UNCHANGED next
Let(v, w) == at' = [at EXCEPT ![v] = at[w]] /\ log' = Append(log, <<"let", v, w>>) /\ UNCHANGED <<heap, next>>
Junk(c, k) == next' = next + c /\ log' = Append(log, <<"junk", c, k, next>>) /\ UNCHANGED <<at, heap>>
(* the first ten places of several lists written in turn, c times ten rounds, with numbers *)
Long == {i \in {at[v]: v \in {x \in Vars: at[x] # 0}}: heap[i].t = "list" /\ heap[i].len >= 10}
Spin(c) == LET vs == SetToSeq({CHOOSE v \in Vars: at[v] = i: i \in Long}) IN
  /\ heap' = [i \in 1..Len(heap) |-> IF i \in Long THEN [heap[i] EXCEPT !.lay = Append(@, [f |-> 0, n |-> 10, d |-> 1, k |-> "i", s |-> next + 10 * (c - 1)])] ELSE heap[i]]
  /\ next' = next + 10 * c /\ log' = Append(log, <<"spin", vs, 10 * c, next>>) /\ UNCHANGED at
(* questions: the length, how many elements are what they say they are, single ones; texts: pieces *)
Ask(v, js) == LET o == heap[at[v]] IN
  /\ log' = Append(log, IF o.t = "text" THEN <<"text", v, o.len, [i \in 1..(IF o.len > 1000000 THEN 1 ELSE Len(js)) |-> js[i] % o.len]>>
       ELSE IF o.t = "list" THEN LET q == SelectSeq([i \in 1..Len(js) |-> IF o.len = 0 THEN 0 ELSE IF i = 1 THEN o.len - 1 ELSE js[i] % o.len], LAMBDA x: x < o.len) IN
                                 <<"list", v, o.len, [i \in 1..Len(q) |-> <<q[i], Value(o, q[i])>>]>>
       ELSE LET bs == Present(o) q == [i \in 1..Len(js) |-> js[i] % (Block * MaxBlocks)] IN
            <<"table", v, Size(o), [i \in 1..Len(q) |-> <<q[i], Value(o, q[i])>>], SetToSortSeq(bs, <)>>)
  /\ UNCHANGED <<at, heap, next>>
Init == /\ at = [v \in Vars |-> 0] /\ heap = <<>> /\ next = 1 /\ log = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
  /\ \E v \in {R(IF n > 999 THEN {} ELSE Vars)}: \E t \in {R(1..(12 + 0 * n))}: \E k \in {R(IF n > 999 THEN {} ELSE Kinds)}: \E c \in {R(IF n > 999 THEN {} ELSE Counts)}:
     IF at[v] = 0 \/ t = 12 THEN \E y \in {Types[R(1..(Len(Types) + 0 * n))]}: New(v, y)
     ELSE LET o == heap[at[v]] IN
       CASE t = 1 -> \E w \in {R({x \in Vars: at[x] # 0} \cup (IF n > 999 THEN {v} ELSE {}))}: Let(v, w)
         [] t = 2 -> IF Cardinality(Long) > 3 THEN Spin(c) ELSE Junk(c, k)
         [] t \in {3, 4} \/ n = Depth - 1 -> \E js \in {Draw(12, LAMBDA i: R(0..(100000000 + 0 * (n + i))))}: Ask(v, js)
         [] o.t = "text" -> \E f \in {R(IF n > 999 THEN {} ELSE Factors)}: IF o.len > MaxText \div f THEN New(v, "text") ELSE Double(v, f)
         [] o.t = "list" -> IF o.len = 0 THEN Grow(v, c, k) ELSE
                            IF t \in {5, 6} THEN \E d \in {R({1, 2, 3, 7, 100, 1000} \cup {1 + 0 * n})}: \E f \in {R(0..(o.len - 1))}: Over(v, f, d, k)
                            ELSE IF o.len + c > MaxLen \/ t = 7 THEN \E x \in {R(1..o.len)}: Drop(v, x) ELSE Grow(v, c, k)
         [] OTHER -> LET bs == Present(o) IN
                     IF bs # {} /\ t \in {5, 6} THEN \E b \in {R(bs)}: Del(v, b)
                     ELSE \E b \in {R(0..(MaxBlocks - 1 + 0 * n))}: \E m \in {R(1..(MaxBlocks - b))}: Put(v, b, m, k)
Spec == Init /\ [][Next]_vars
(* the numbers of new values are fresh, and what is in a list lies within it *)
Fresh == \A i \in 1..Len(heap): \A j \in 1..Len(heap[i].lay): heap[i].lay[j].s + (IF heap[i].lay[j].k = "none" THEN 0 ELSE heap[i].lay[j].n) <= next
Filled == \A i \in 1..Len(heap): heap[i].t = "list" /\ heap[i].len > 0 => Value(heap[i], 0) # <<>> /\ Value(heap[i], heap[i].len - 1) # <<>> /\ Value(heap[i], heap[i].len) = <<>>
(* a step changes one object at most, and naming another object changes none *)
Frame == [][\A i \in 1..Len(heap): heap'[i] # heap[i] => at' = at /\ (\E v \in Vars: at[v] = i) /\ ((\A j \in 1..Len(heap): j # i => heap'[j] = heap[j]) \/ log'[Len(log')][1] = "spin")]_vars
Emit == n = Depth => PrintT(<<"@P", ToJson(log)>>)
=============================================================================
