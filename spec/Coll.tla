------------------------------- MODULE Coll -------------------------------
(* Lists, tables and the object graph of a potion heap.

   State:  regs  the program's variables (roots), each holding a value
           heap  the objects reachable from them, numbered in the order a
                 depth first walk from the registers meets them
   Values: <<"n">> nil, <<"t">>, <<"f">>, <<"i",k>> integer, <<"s",codes>> string,
           <<"r",id>> reference to heap[id]
   Objects: [k|->"L", v|->sequence of values]             a list
            [k|->"M", v|-> <<>>, m|->set of <<key,value>>] a table

   Every action is one method call (or a garbage collection, which is a stuttering
   step on regs and heap).  The conformance harness performs the same call on the
   real runtime and compares the result and the whole reachable graph.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

CONSTANTS NR,        \* number of registers
          Mode,      \* "bfs": enumerate, "sim": random
          OpNames,   \* the operations this configuration exercises
          MaxLen,    \* bfs: bound on list length / table size
          MaxObj,    \* bfs: bound on live objects
          Depth,     \* bfs: bound on the history, sim: length of behaviours
          Ints, Strs \* literal pools
VARIABLES regs, heap, hist
vars == <<regs, heap, hist>>

N == <<"n">>  T == <<"t">>  F == <<"f">>
I(k) == <<"i", k>>  S(c) == <<"s", c>>  R(id) == <<"r", id>>
Bool(b) == IF b THEN T ELSE F
IsRef(x) == x[1] = "r"
IsInt(x) == x[1] = "i"
Truthy(x) == x[1] \notin {"n", "f"}
L(s) == [k |-> "L", v |-> s, m |-> {}]
M(s) == [k |-> "M", v |-> <<>>, m |-> s]

(* ------------------------- ordering of scalar keys ------------------------ *)
Rank(x) == CASE x[1] = "n" -> 0 [] x[1] = "f" -> 1 [] x[1] = "t" -> 2 [] x[1] = "i" -> 3 [] OTHER -> 4
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) = Head(b) THEN SeqLess(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
KeyLess(a, b) == IF Rank(a) # Rank(b) THEN Rank(a) < Rank(b)
                 ELSE CASE Rank(a) = 3 -> a[2] < b[2] [] Rank(a) = 4 -> SeqLess(a[2], b[2]) [] OTHER -> FALSE
SortedPairs(m) == SetToSortSeq(m, LAMBDA p, q: KeyLess(p[1], q[1]))

(* ------------------------------ reachability ------------------------------ *)
Children(o) == IF o.k = "L" THEN o.v ELSE LET p == SortedPairs(o.m) IN [i \in 1..Len(p) |-> p[i][2]]
RECURSIVE Visit(_, _, _)
Visit(w, h, o) == IF w = <<>> THEN o
  ELSE LET x == Head(w) IN
       IF ~IsRef(x) THEN Visit(Tail(w), h, o)
       ELSE IF \E i \in 1..Len(o): o[i] = x[2] THEN Visit(Tail(w), h, o)
       ELSE Visit(Children(h[x[2]]) \o Tail(w), h, Append(o, x[2]))
\* drop the unreachable objects and renumber the rest in visiting order
Compact(rs, h) ==
  LET ord == Visit([i \in 1..NR |-> rs[i-1]], h, <<>>)
      ix == [id \in {ord[i]: i \in 1..Len(ord)} |-> CHOOSE i \in 1..Len(ord): ord[i] = id]
      rv(x) == IF IsRef(x) THEN R(ix[x[2]]) ELSE x
      ro(o) == IF o.k = "L" THEN L([i \in 1..Len(o.v) |-> rv(o.v[i])]) ELSE M({<<p[1], rv(p[2])>>: p \in o.m})
  IN [regs |-> [i \in 0..NR-1 |-> rv(rs[i])], heap |-> [i \in 1..Len(ord) |-> ro(h[ord[i]])]]

\* is everything reachable from x a tree of bounded depth (so that it has a finite text)?
RECURSIVE Shallow(_, _, _)
Shallow(x, h, d) == IF ~IsRef(x) THEN TRUE ELSE IF d = 0 THEN FALSE
  ELSE LET c == Children(h[x[2]]) IN
       /\ (h[x[2]].k = "M" => Cardinality(h[x[2]].m) <= 1)     \* a table's order is unspecified
       /\ \A i \in 1..Len(c): Shallow(c[i], h, d - 1)
       /\ Len(c) <= 12

(* --------------------------------- texts ---------------------------------- *)
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))
IntText(k) == IF k < 0 THEN <<45>> \o Digits(-k) ELSE Digits(k)
RECURSIVE Text(_, _)
RECURSIVE TextJoin(_, _, _)
TextJoin(s, sep, h) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN Text(s[1], h)
                       ELSE Text(s[1], h) \o sep \o TextJoin(Tail(s), sep, h)
Text(x, h) ==
  CASE x[1] = "n" -> <<110,105,108>> [] x[1] = "t" -> <<116,114,117,101>> [] x[1] = "f" -> <<102,97,108,115,101>>
    [] x[1] = "i" -> IntText(x[2]) [] x[1] = "s" -> x[2]
    [] OTHER -> LET o == h[x[2]] IN
        IF o.k = "L" THEN <<40>> \o TextJoin(o.v, <<44, 32>>, h) \o <<41>>
        ELSE IF o.m = {} THEN <<40, 41>>
             ELSE LET p == CHOOSE q \in o.m: TRUE IN <<40>> \o Text(p[1], h) \o <<61>> \o Text(p[2], h) \o <<41>>

(* ------------------------------ comparisons ------------------------------- *)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE CmpOk(_, _, _, _)
CmpOk(a, b, h, d) ==
  IF IsInt(a) THEN IsInt(b)
  ELSE IF a[1] = "s" THEN b[1] = "s"
  ELSE IF IsRef(a) /\ IsRef(b) /\ d > 0 THEN
         /\ h[a[2]].k = "L" /\ h[b[2]].k = "L"
         /\ LET x == h[a[2]].v y == h[b[2]].v IN
            \A i \in 1..Len(x): i > Len(y) \/ CmpOk(x[i], y[i], h, d - 1)
       ELSE FALSE
RECURSIVE Cmp(_, _, _)
RECURSIVE CmpSeq(_, _, _)
CmpSeq(x, y, h) == IF x = <<>> THEN IF y = <<>> THEN 0 ELSE -1
  ELSE IF y = <<>> THEN 1
  ELSE LET c == Cmp(Head(x), Head(y), h) IN IF c # 0 THEN c ELSE CmpSeq(Tail(x), Tail(y), h)
Cmp(a, b, h) == IF IsInt(a) THEN Sign(a[2] - b[2])
  ELSE IF a[1] = "s" THEN IF a = b THEN 0 ELSE IF SeqLess(a[2], b[2]) THEN -1 ELSE 1
  ELSE CmpSeq(h[a[2]].v, h[b[2]].v, h)

(* ------------------------------ the methods -------------------------------
   Each returns [h |-> new heap, r |-> result value, ok |-> within the domain
   the property speaks about].  New objects are appended to the heap.          *)
Ok(h, r) == [h |-> h, r |-> r, ok |-> TRUE]
No(h) == [h |-> h, r |-> N, ok |-> FALSE]
NewL(h, s) == Ok(Append(h, L(s)), R(Len(h) + 1))
NewM(h, s) == Ok(Append(h, M(s)), R(Len(h) + 1))
SetObj(h, id, o) == [h EXCEPT ![id] = o]
MPut(m, k, x) == {p \in m: p[1] # k} \cup {<<k, x>>}
MGet(m, k) == IF \E p \in m: p[1] = k THEN (CHOOSE p \in m: p[1] = k)[2] ELSE N
AsMap(s) == {<<I(i-1), s[i]>>: i \in 1..Len(s)}
Scalar(x) == ~IsRef(x)
Idx(i, len) == IF i < 0 THEN i + len ELSE i          \* negative indices count from the end
DropAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))   \* i zero based
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

SliceL(s, a, b) ==      \* a, b values; the bounds are inclusive, either order, clipped to the list
  IF ~Truthy(a) THEN s
  ELSE LET n == Len(s)
           i == Idx(a[2], n)
           e == IF b = N THEN n - 1 ELSE Idx(b[2], n)
           lo == Mx(IF b = N THEN i ELSE Mn(i, e), 0)
           hi == Mn(IF b = N THEN n - 1 ELSE Mx(i, e), n - 1)
       IN SubSeq(s, lo + 1, hi + 1)

ListM(op, id, h, a) ==
  LET s == h[id].v  n == Len(s)  self == R(id)
  IN CASE op = "push" \/ op = "append" -> Ok(SetObj(h, id, L(Append(s, a[1]))), self)
  [] op = "pop"     -> IF n = 0 THEN Ok(h, N) ELSE Ok(SetObj(h, id, L(SubSeq(s, 1, n - 1))), s[n])
  [] op = "shift"   -> IF n = 0 THEN Ok(h, N) ELSE Ok(SetObj(h, id, L(Tail(s))), s[1])
  [] op = "unshift" -> Ok(SetObj(h, id, L(<<a[1]>> \o s)), self)
  [] op = "at"      -> IF ~IsInt(a[1]) THEN No(h)
                       ELSE LET i == Idx(a[1][2], n) IN Ok(h, IF i < 0 \/ i >= n THEN N ELSE s[i + 1])
  [] op = "first"   -> Ok(h, IF n = 0 THEN N ELSE s[1])
  [] op = "last"    -> Ok(h, IF n = 0 THEN N ELSE s[n])
  [] op = "length"  -> Ok(h, I(n))
  [] op = "reverse" -> NewL(h, [i \in 1..n |-> s[n + 1 - i]])
  [] op = "nreverse" -> Ok(SetObj(h, id, L([i \in 1..n |-> s[n + 1 - i]])), self)
  [] op = "clone"   -> NewL(h, s)
  [] op = "remove"  -> IF ~IsInt(a[1]) THEN No(h) ELSE IF n = 0 THEN Ok(h, self)
                       ELSE LET i == Idx(a[1][2], n) IN NewL(h, IF i < 0 \/ i >= n THEN s ELSE DropAt(s, i))
  [] op = "delete"  -> IF ~IsInt(a[1]) THEN No(h)
                       ELSE LET i == Idx(a[1][2], n) IN
                            Ok(IF i < 0 \/ i >= n THEN h ELSE SetObj(h, id, L(DropAt(s, i))), self)
  [] op = "slice"   -> IF Len(a) # 2 \/ ~(a[1] = N \/ IsInt(a[1])) \/ ~(a[2] = N \/ IsInt(a[2])) THEN No(h)
                       ELSE LET r == SliceL(s, a[1], a[2]) IN
                            IF r = <<>> /\ a[1] # N THEN Ok(h, N) ELSE NewL(h, r)
  [] op = "put"     -> IF ~Scalar(a[1]) THEN No(h)
                       ELSE IF IsInt(a[1]) /\ Idx(a[1][2], n) >= 0 /\ Idx(a[1][2], n) < n
                            THEN Ok(SetObj(h, id, L([s EXCEPT ![Idx(a[1][2], n) + 1] = a[2]])), self)
                       ELSE IF IsInt(a[1]) /\ Idx(a[1][2], n) = n
                            THEN Ok(SetObj(h, id, L(Append(s, a[2]))), self)
                       ELSE Ok(SetObj(h, id, M(MPut(AsMap(s), a[1], a[2]))), self)
  [] op = "join"    -> IF a[1][1] # "s" \/ ~Shallow(self, h, 4) THEN No(h) ELSE Ok(h, S(TextJoin(s, a[1][2], h)))
  [] op = "string"  -> IF ~Shallow(self, h, 4) THEN No(h) ELSE Ok(h, S(Text(self, h)))
  [] op = "cmp"     -> IF CmpOk(self, a[1], h, 4) THEN Ok(h, I(Cmp(self, a[1], h))) ELSE No(h)
  [] op = "each"    -> Ok(h, <<"pairs", [i \in 1..n |-> <<s[i], I(i-1)>>]>>)
  [] op = "mapw"    -> LET k == Len(h) IN     \* map (x): (x).
                       [h |-> h \o [i \in 1..n |-> L(<<s[i]>>)] \o <<L([i \in 1..n |-> R(k + i)])>>, r |-> R(k + n + 1), ok |-> TRUE]
  [] op = "filt"    -> NewL(h, SelectSeq(s, LAMBDA x: Truthy(x)))      \* filter (x): x.
  [] op = "filti"   -> NewL(h, SelectSeq(s, IsInt))
  [] op = "reduce"  -> IF n = 0 THEN Ok(h, N)                          \* reduce (a, x): (a, x).
                       ELSE LET k == Len(h) IN
                            [h |-> h \o [i \in 1..n-1 |-> L(<<IF i = 1 THEN s[1] ELSE R(k + i - 1), s[i + 1]>>)],
                             r |-> IF n = 1 THEN s[1] ELSE R(k + n - 1), ok |-> s[1] # N]
  [] OTHER -> No(h)

TableM(op, id, h, a) ==
  LET m == h[id].m  self == R(id)
  IN CASE op = "put"    -> IF Scalar(a[1]) THEN Ok(SetObj(h, id, M(MPut(m, a[1], a[2]))), self) ELSE No(h)
  [] op = "at"     -> IF Scalar(a[1]) THEN Ok(h, MGet(m, a[1])) ELSE No(h)
  [] op = "remove" -> IF Scalar(a[1]) THEN Ok(SetObj(h, id, M({p \in m: p[1] # a[1]})), self) ELSE No(h)
  [] op = "length" -> Ok(h, I(Cardinality(m)))
  [] op = "clone"  -> NewM(h, m)
  [] op = "slice"  -> IF a[1] = N THEN NewM(h, m)
                      ELSE IF ~IsRef(a[1]) THEN No(h)
                      ELSE IF h[a[1][2]].k # "L" \/ (\E i \in 1..Len(h[a[1][2]].v): IsRef(h[a[1][2]].v[i])) THEN No(h)
                      ELSE NewM(h, {p \in m: \E i \in 1..Len(h[a[1][2]].v): h[a[1][2]].v[i] = p[1]})
  [] op = "keys"   -> Ok(h, <<"bag", [i \in 1..Cardinality(m) |-> SortedPairs(m)[i][1]]>>)
  [] op = "values" -> Ok(h, <<"bag", [i \in 1..Cardinality(m) |-> SortedPairs(m)[i][2]]>>)
  [] op = "each"   -> Ok(h, <<"bagpairs", SortedPairs(m)>>)
  [] op = "mapw"   -> IF Cardinality(m) > 1 THEN No(h)
                      ELSE LET k == Len(h) n == Cardinality(m) s == SortedPairs(m) IN
                       [h |-> h \o [i \in 1..n |-> L(<<s[i][1]>>)] \o <<L([i \in 1..n |-> R(k + i)])>>, r |-> R(k + n + 1), ok |-> TRUE]
  [] op = "filt"   -> NewM(h, {p \in m: Truthy(p[1])})
  [] op = "filt2"  -> NewM(h, {p \in m: Truthy(p[2])})
  [] op = "filti"  -> NewM(h, {p \in m: IsInt(p[1])})
  [] op = "string" -> IF ~Shallow(self, h, 4) THEN No(h) ELSE Ok(h, S(Text(self, h)))
  [] OTHER -> No(h)

Call(op, x, h, a) == IF ~IsRef(x) THEN No(h)
                     ELSE IF h[x[2]].k = "L" THEN ListM(op, x[2], h, a) ELSE TableM(op, x[2], h, a)

(* ---------------------------------- steps ---------------------------------
   An operation is [op, d (destination register), x (receiver register), a (arguments)],
   arguments being literals or <<"R",k>> (register k).                                 *)
Arg(x) == IF x[1] = "R" THEN regs[x[2]] ELSE x
Args(a) == [i \in 1..Len(a) |-> Arg(a[i])]
Effect(o) ==
  LET a == Args(o.a) IN
  CASE o.op = "set"  -> Ok(heap, a[1])
    [] o.op = "tup"  -> NewL(heap, a)
    [] o.op = "list" -> NewL(heap, [i \in 1..a[1][2] |-> N])
    [] o.op = "tab"  -> NewM(heap, LET f[i \in 0..(Len(a) \div 2)] == IF i = 0 THEN {} ELSE MPut(f[i-1], a[2*i-1], a[2*i]) IN f[Len(a) \div 2])
    [] o.op = "gc"   -> Ok(heap, N)
    [] OTHER -> Call(o.op, regs[o.x], heap, a)
\* results that are only observed, not stored
Observed(r) == r[1] \in {"bag", "bagpairs", "pairs"}
Scalars1 == {"n", "t", "f", "i", "s"}
Stores(o, e) == o.op # "gc" /\ ~Observed(e.r)

Perform(o, e) ==
  LET rs == IF Stores(o, e) THEN [regs EXCEPT ![o.d] = e.r] ELSE regs
      c == Compact(rs, e.h)
  IN /\ regs' = c.regs /\ heap' = c.heap

(* the record of a step; the result is shown against the heap before compaction only
   when it is not stored, so references in it are renumbered the same way            *)
Rec(o, e) ==
  LET rs == IF Stores(o, e) THEN [regs EXCEPT ![o.d] = e.r] ELSE regs
      ord == Visit([i \in 1..NR |-> rs[i-1]], e.h, <<>>)
      nu(x) == IF IsRef(x) THEN R(CHOOSE i \in 1..Len(ord): ord[i] = x[2]) ELSE x
      r == e.r
      rr == IF r[1] = "bag" THEN <<"bag", [i \in 1..Len(r[2]) |-> nu(r[2][i])]>>
            ELSE IF Observed(r) THEN <<r[1], [i \in 1..Len(r[2]) |-> <<nu(r[2][i][1]), nu(r[2][i][2])>>]>>
            ELSE IF o.op = "gc" THEN N ELSE nu(r)
  IN [o |-> o, r |-> rr]

O(op, d, x, a) == [op |-> op, d |-> d, x |-> x, a |-> a]
Regs == 0..NR-1
Lits == {N, T, F} \cup {I(k): k \in Ints} \cup {S(c): c \in Strs}
AllArgs == Lits \cup {<<"R", k>>: k \in Regs}
SmallLits == {N} \cup {I(k): k \in Ints} \cup {S(c): c \in Strs}
Keys == SmallLits
Ix == {I(k): k \in Ints}

Nullary == {"pop", "shift", "first", "last", "length", "reverse", "nreverse", "clone", "string", "each",
            "mapw", "filt", "filt2", "filti", "reduce", "keys", "values"}
Unary1 == {"push", "append", "unshift"}
Indexed == {"at", "remove", "delete"}

(* every operation instance, for exhaustive exploration *)
BfsOps ==
  {O(n, d, x, <<>>): n \in OpNames \cap Nullary, d \in Regs, x \in Regs}
  \cup {O(n, d, x, <<v>>): n \in OpNames \cap Unary1, d \in Regs, x \in Regs, v \in SmallLits \cup {<<"R", k>>: k \in Regs}}
  \cup {O(n, d, x, <<v>>): n \in OpNames \cap Indexed, d \in Regs, x \in Regs, v \in Keys}
  \cup {O(n, d, x, <<v, w>>): n \in OpNames \cap {"put"}, d \in Regs, x \in Regs, v \in Keys, w \in Ix \cup {<<"R", k>>: k \in Regs}}
  \cup {O(n, d, x, <<v, w>>): n \in OpNames \cap {"slice"}, d \in Regs, x \in Regs, v \in Ix \cup {N}, w \in Ix \cup {N}}
  \cup {O(n, d, x, <<<<"R", k>>>>): n \in OpNames \cap {"cmp", "slice"}, d \in Regs, x \in Regs, k \in Regs}
  \cup {O(n, d, x, <<S(c)>>): n \in OpNames \cap {"join"}, d \in Regs, x \in Regs, c \in Strs}
  \cup {O("set", d, 0, <<v>>): d \in Regs, v \in (IF "set" \in OpNames THEN {N} \cup {<<"R", k>>: k \in Regs} ELSE {})}
  \cup {O("list", d, 0, <<I(k)>>): d \in Regs, k \in (IF "list" \in OpNames THEN {0, 2} ELSE {})}
  \cup {O("tup", d, 0, <<v>>): d \in Regs, v \in (IF "tup" \in OpNames THEN Ix ELSE {})}
  \cup {O("tab", d, 0, a): d \in Regs, a \in (IF "tab" \in OpNames THEN {<<>>} \cup {<<k, v>>: k \in Keys, v \in Ix} ELSE {})}
  \cup {O("gc", 0, 0, <<g>>): g \in (IF "gc" \in OpNames THEN {<<"g", "minor">>, <<"g", "major">>} ELSE {})}

Small(rs, h) == /\ Len(h) <= MaxObj
                /\ \A i \in 1..Len(h): Len(h[i].v) <= MaxLen /\ Cardinality(h[i].m) <= MaxLen

BfsNext ==
  \E o \in BfsOps:
    LET e == Effect(o) IN
    /\ e.ok
    /\ Perform(o, e)
    /\ Small(regs', heap')
    /\ hist' = Append(hist, Rec(o, e))
    /\ PrintT(<<"@T", ToJson([h |-> hist', regs |-> [i \in 1..NR |-> regs'[i-1]], heap |-> heap'])>>)

(* --------------------------- random behaviours ---------------------------- *)
Pick(s) == RandomElement(s)
RndInt == Pick(Ints)
RndLit == LET c == Pick(1..10) IN
  CASE c <= 4 -> I(RndInt) [] c <= 7 -> S(Pick(Strs)) [] c = 8 -> N [] c = 9 -> T [] OTHER -> F
RndArg == IF Pick(1..5) <= 3 THEN RndLit ELSE <<"R", Pick(Regs)>>
RndKey == IF Pick(1..4) <= 3 THEN RndLit ELSE I(Pick(0..30))
RefRegs(kind) == {k \in Regs: IsRef(regs[k]) /\ heap[regs[k][2]].k = kind}
LenOf(x) == IF IsRef(regs[x]) THEN Len(heap[regs[x][2]].v) ELSE 0
RndIx(x) == LET n == LenOf(x) IN I(Pick((-n - 2)..(n + 2)))
RndOp ==
  LET name == Pick(OpNames)
      want == IF name \in {"keys", "values", "filt2"} THEN "M"
              ELSE IF name \in {"put", "at", "remove", "length", "clone", "each", "filt", "filti", "slice", "string", "mapw"} THEN Pick({"L", "M"}) ELSE "L"
      cand == RefRegs(want)
      x == IF cand = {} THEN 0 ELSE Pick(cand)
      d == Pick(Regs)
      arg == RndArg
      ix == IF want = "M" THEN RndKey ELSE RndIx(x)
  IN CASE name \in Nullary -> O(name, d, x, <<>>)
       [] name \in Unary1 -> O(name, d, x, <<arg>>)
       [] name \in Indexed -> O(name, d, x, <<ix>>)
       [] name = "put" -> O(name, d, x, <<IF want = "L" /\ Pick(1..12) = 1 THEN RndKey ELSE ix, arg>>)
       [] name = "slice" -> IF want = "M" THEN (LET ks == RefRegs("L") IN O(name, d, x, <<IF ks = {} THEN N ELSE <<"R", Pick(ks)>>>>))
                            ELSE O(name, d, x, <<IF Pick(1..6) = 1 THEN N ELSE ix, IF Pick(1..4) = 1 THEN N ELSE RndIx(x)>>)
       [] name = "cmp" -> LET ks == RefRegs("L") IN O(name, d, x, <<IF ks = {} THEN N ELSE <<"R", Pick(ks)>>>>)
       [] name = "join" -> O(name, d, x, <<S(Pick(Strs))>>)
       [] name = "set" -> O(name, d, 0, <<arg>>)
       [] name = "list" -> O(name, d, 0, <<I(Pick(0..12))>>)
       [] name = "tup" -> O(name, d, 0, [i \in 1..Pick(0..14) |-> RndArg])
       [] name = "tab" -> LET n == Pick(0..20) IN O(name, d, 0, [i \in 1..2*n |-> IF i % 2 = 1 THEN RndKey ELSE RndArg])
       [] name = "gc" -> O(name, 0, 0, <<<<"g", Pick({"minor", "minor", "major", "churn"})>>>>)
       [] OTHER -> O("gc", 0, 0, <<<<"g", "minor">>>>)

SimNext ==
  \E o1 \in {RndOp}, o2 \in {O("tup", Pick(Regs), 0, [i \in 1..Pick(0..6) |-> RndLit])}:   \* (bound, so picked once)
  LET e1 == Effect(o1)
      good == e1.ok /\ Small(regs, e1.h)        \* otherwise build a list instead
      o == IF good THEN o1 ELSE o2
      e == IF good THEN e1 ELSE Effect(o2)
  IN
  /\ Len(hist) < Depth
  /\ Perform(o, e)
  /\ hist' = Append(hist, Rec(o, e) @@ [regs |-> [i \in 1..NR |-> regs'[i-1]], heap |-> heap'])

Init == /\ regs = [i \in 0..NR-1 |-> N] /\ heap = <<>> /\ hist = <<>>
Next == IF Mode = "bfs" THEN Len(hist) < Depth /\ BfsNext ELSE SimNext
Spec == Init /\ [][Next]_vars
View == <<regs, heap>>

(* ------------------------------- invariants ------------------------------- *)
\* references always denote an object, every object is reachable, tables have unique keys
WellFormed ==
  /\ \A k \in Regs: IsRef(regs[k]) => regs[k][2] \in 1..Len(heap)
  /\ \A i \in 1..Len(heap): \A j \in 1..Len(Children(heap[i])):
       IsRef(Children(heap[i])[j]) => Children(heap[i])[j][2] \in 1..Len(heap)
  /\ \A i \in 1..Len(heap): \A p, q \in heap[i].m: p[1] = q[1] => p = q
Emit == IF Mode = "sim" /\ Len(hist) = Depth THEN PrintT(<<"@T", ToJson(hist)>>) ELSE TRUE

(* --------------- laws the user relies on, checked on the model ------------- *)
\* reversing twice, push then pop, unshift then shift, clone independence
Laws == \A i \in 1..Len(heap):
  IF heap[i].k = "L"
  THEN LET s == heap[i].v
           e1 == ListM("reverse", i, heap, <<>>)
           e2 == ListM("reverse", e1.r[2], e1.h, <<>>)
           p1 == ListM("push", i, heap, <<I(7)>>)
           p2 == ListM("pop", i, p1.h, <<>>)
           u1 == ListM("unshift", i, heap, <<I(7)>>)
           u2 == ListM("shift", i, u1.h, <<>>)
           c1 == ListM("clone", i, heap, <<>>)
           c2 == ListM("push", c1.r[2], c1.h, <<T>>)
       IN /\ e2.h[e2.r[2]].v = s /\ p2.h = heap /\ p2.r = I(7) /\ u2.h = heap /\ u2.r = I(7)
          /\ c2.h[i] = heap[i]
          /\ \A j \in -Len(s)..Len(s)-1: ListM("at", i, heap, <<I(j)>>).r = s[Idx(j, Len(s)) + 1]
          /\ ListM("at", i, heap, <<I(Len(s))>>).r = N
  ELSE \A k \in Keys: LET p1 == TableM("put", i, heap, <<k, T>>) IN
          /\ TableM("at", i, p1.h, <<k>>).r = T
          /\ \A k2 \in Keys: k2 # k => TableM("at", i, p1.h, <<k2>>).r = TableM("at", i, heap, <<k2>>).r
          /\ TableM("at", i, TableM("remove", i, heap, <<k>>).h, <<k>>).r = N
===========================================================================
