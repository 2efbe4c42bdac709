-------------------------------- MODULE Obj --------------------------------
(* Objects, classes and messages.  The state is the class forest with each class's methods as they
   stand now, the objects with their own fields, and the variables.  A message is answered by the
   first class of the receiver's chain that has the method; there is no cache in this model.
   Every step leaves a record: the operation and what the program prints for it.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, Depth, Pre, Alphabet, Classes0, Vars, CVars, MaxC, MaxO, Setup
VARIABLES cls, obj, var, cvar, cnt, h
vars == <<cls, obj, var, cvar, cnt, h>>

(* values *)
Nil == <<"n">>
IntV(i) == <<"i", i>>
Str == <<"s">>
Tup == <<"t">>
Obj(o) == <<"o", o>>
Bool(b) == <<"b", b>>
List(s) == <<"l", s>>
F == {"x", "y", "z"}
M0 == {"m1", "m2", "m3"}     \* methods without parameter; a body of m1 may send m2 and m3, one of m2 only m3
M1 == {"s"}                  \* with one
M == M0 \cup M1
Rank(m) == CASE m = "s" -> 0 [] m = "m1" -> 1 [] m = "m2" -> 2 [] m = "m3" -> 3

NoM == [m \in M |-> <<"none">>]
NoMeta == [m \in M0 |-> <<"none">>]
Class(p, iv, c) == [par |-> p, iv |-> iv, ctor |-> c, meth |-> NoM, meta |-> NoMeta]
NoCtor == [np |-> 0, sets |-> <<>>]
Builtin == <<Class(0, {}, NoCtor), Class(1, {}, NoCtor), Class(2, {}, NoCtor), Class(2, {}, NoCtor), Class(2, {}, NoCtor), Class(2, {}, NoCtor), Class(1, {}, NoCtor)>>
Lobby == 1  Object == 2  Number == 3  StringC == 4  TupleC == 5  NilC == 6  Mixin == 7

(* a store: everything a message can change *)
St == [cls |-> cls, obj |-> obj, cnt |-> cnt]
KindOf(st, v) == CASE v[1] = "n" -> NilC [] v[1] = "i" -> Number [] v[1] = "s" -> StringC [] v[1] = "t" -> TupleC [] v[1] = "o" -> st.obj[v[2]].c
                   [] v[1] = "l" -> TupleC [] v[1] = "c" -> Mixin
RECURSIVE Lookup(_, _, _), Sub(_, _, _)
Lookup(st, c, m) == IF c = 0 THEN <<"none">> ELSE IF st.cls[c].meth[m] # <<"none">> THEN st.cls[c].meth[m] ELSE Lookup(st, st.cls[c].par, m)
Sub(st, c, d) == c = d \/ (c # 0 /\ Sub(st, st.cls[c].par, d))
\* a class as receiver: its own metaclass, then Mixin, then Lobby
Find(st, v, m) == IF v[1] = "c" THEN (IF m \in M0 /\ st.cls[v[2]].meta[m] # <<"none">> THEN st.cls[v[2]].meta[m] ELSE Lookup(st, Mixin, m))
                  ELSE Lookup(st, KindOf(st, v), m)
Get(st, v, f) == IF v[1] = "o" THEN st.obj[v[2]].f[f] ELSE Nil
Set(st, v, f, w) == IF v[1] = "o" /\ f \in st.cls[st.obj[v[2]].c].iv THEN [st EXCEPT !.obj[v[2]].f[f] = w] ELSE st
R(st, v) == [st |-> st, v |-> v]
RECURSIVE Send(_, _, _, _), Do(_, _, _, _)
Send(st, v, m, a) == LET b == Find(st, v, m) IN IF b = <<"none">> THEN R(st, Nil) ELSE Do(st, v, b, a)
Do(st, v, b, a) ==
  CASE b[1] = "const" -> R(st, IntV(b[2]))
    [] b[1] = "get" -> R(st, List(<<IntV(b[3]), Get(st, v, b[2])>>))
    [] b[1] = "self" -> LET r == Send(st, v, b[2], Nil) IN R(r.st, List(<<r.v, IntV(b[3])>>))
    [] b[1] = "two" -> LET r == Send(st, v, b[2], Nil) q == Send(r.st, v, b[3], Nil) IN R(q.st, List(<<r.v, q.v>>))
    [] b[1] = "field" -> Send(st, Get(st, v, b[2]), b[3], Nil)
    [] b[1] = "count" -> LET n == st.cnt + 1 IN R([st EXCEPT !.cnt = n], IntV(n))
    [] b[1] = "put" -> R(Set(st, v, b[2], IntV(b[3])), IntV(b[3]))
    [] b[1] = "set" -> R(Set(st, v, b[2], a), a)
    [] b[1] = "arg" -> LET r == Send(st, a, b[2], Nil) IN R(r.st, List(<<r.v, IntV(b[3])>>))
RECURSIVE Run(_, _, _, _, _)
\* the constructor's assignments
Run(st, o, sets, args, i) ==
  IF i > Len(sets) THEN st ELSE IF sets[i][1] = "#" THEN Run([st EXCEPT !.cnt = @ + 1], o, sets, args, i + 1) ELSE      \* a statement that sets no field
  LET e == sets[i][2]
      r == CASE e[1] = "p" -> R(st, args[e[2]]) [] e[1] = "k" -> R(st, IntV(e[2])) [] e[1] = "m" -> Send(st, Obj(o), e[2], Nil)
  IN Run(Set(r.st, Obj(o), sets[i][1], r.v), o, sets, args, i + 1)
New(st, c, args) == LET o == Len(st.obj) + 1
                        st1 == [st EXCEPT !.obj = Append(@, [c |-> c, f |-> [x \in F |-> Nil]])]
                    IN Run(st1, o, st.cls[c].ctor.sets, args, 1)

(* operations: <<name, ...>>; each leaves [op, out] where out is the printed value or <<"-">> *)
Put(st, op, out) == /\ cls' = st.cls /\ obj' = st.obj /\ cnt' = st.cnt /\ h' = Append(h, [op |-> op, out |-> out])
Val(e) == CASE e[1] = "v" -> var[e[2]] [] e[1] = "c" -> <<"c", cvar[e[2]]>> [] OTHER -> e      \* a variable, a class variable or a literal
Live == {v \in Vars: TRUE}
CLive == {c \in CVars: cvar[c] # 0}
DefClass(c, p, iv, ct) ==       \* c = p class (..): ..   p: class variable or "Object"; ct: own constructor or <<>>
  LET pc == IF p = "Object" THEN Object ELSE cvar[p]
      own == ct # <<>>
      new == IF pc = 0 THEN NoCtor ELSE Class(pc, cls[pc].iv \cup (IF own THEN {ct[1].sets[i][1]: i \in 1..Len(ct[1].sets)} \ {"#"} ELSE {}), IF own THEN ct[1] ELSE cls[pc].ctor)
  IN /\ Len(cls) < MaxC + 7 /\ pc # 0
     /\ cvar' = [cvar EXCEPT ![c] = Len(cls) + 1] /\ UNCHANGED var
     /\ Put([St EXCEPT !.cls = Append(@, new)], <<"class", c, p, ct>>, <<"-">>)
Owner(w) == CASE w[1] = "b" -> w[2] [] w[1] = "c" -> cvar[w[2]] [] w[1] = "k" -> KindOf(St, var[w[2]])
Def(w, m, b) == /\ (w[1] = "c" => cvar[w[2]] # 0) /\ UNCHANGED <<var, cvar>> /\ Put([St EXCEPT !.cls[Owner(w)].meth[m] = b], <<"def", w, m, b>>, <<"-">>)
Meta(c, m, b) == /\ UNCHANGED <<var, cvar>> /\ Put([St EXCEPT !.cls[cvar[c]].meta[m] = b], <<"meta", c, m, b>>, <<"-">>)
Make(v, c, as) == /\ Len(obj) < MaxO /\ cvar[c] # 0 /\ Len(as) = cls[cvar[c]].ctor.np
                  /\ UNCHANGED cvar /\ var' = [var EXCEPT ![v] = Obj(Len(obj) + 1)]
                  /\ Put(New(St, cvar[c], [i \in 1..Len(as) |-> Val(as[i])]), <<"new", v, c, as>>, <<"-">>)
Assign(v, e) == /\ UNCHANGED cvar /\ var' = [var EXCEPT ![v] = Val(e)] /\ Put(St, <<"let", v, e>>, <<"-">>)
CAssign(c, d) == /\ cvar[d] # 0 /\ UNCHANGED var /\ cvar' = [cvar EXCEPT ![c] = cvar[d]] /\ Put(St, <<"clet", c, d>>, <<"-">>)
SetIv(v, f, e) == /\ UNCHANGED <<var, cvar>> /\ var[v][1] = "o" /\ Put(Set(St, var[v], f, Val(e)), <<"set", v, f, e>>, <<"-">>)
\* w /f /g = e
SetIv2(v, f, g, e) == /\ UNCHANGED <<var, cvar>> /\ var[v][1] = "o" /\ Get(St, var[v], f)[1] = "o" /\ Put(Set(St, Get(St, var[v], f), g, Val(e)), <<"set2", v, f, g, e>>, <<"-">>)
(* questions, asked in one printed list; they can have effects through the methods *)
Ask(st, q) ==
  CASE q[1] = "send" -> Send(st, Val(q[2]), q[3], Nil)              \* directly, through a function, by name
    [] q[1] = "sendarg" -> Send(st, Val(q[2]), "s", Val(q[3]))
    [] q[1] = "cnt" -> R(st, IntV(st.cnt))
    [] q[1] = "get" -> R(st, Get(st, Val(q[2]), q[3]))
    [] q[1] = "get2" -> R(st, Get(st, Get(st, Val(q[2]), q[3]), q[4]))
    [] q[1] = "has" -> R(st, Bool(Find(st, Val(q[2]), q[3]) # <<"none">>))
    [] q[1] = "hasf" -> R(st, Bool(Get(st, Val(q[2]), q[3]) # Nil))       \* u ?/x
    [] q[1] = "qsend" -> Send(st, Val(q[2]), q[3], Nil)               \* u ?m1(): nil where there is no such method
    [] q[1] = "qarg" -> Send(st, Val(q[2]), "s", Val(q[3]))
    [] q[1] = "isa" -> R(st, Bool(KindOf(st, Val(q[2])) = cvar[q[3]]))
    [] q[1] = "sub" -> R(st, Bool(Sub(st, KindOf(st, Val(q[2])), cvar[q[3]])))
    [] q[1] = "same" -> R(st, Bool(Val(q[2]) = Val(q[3])))
    [] q[1] = "samef" -> R(st, Bool(Get(st, Val(q[2]), q[3]) = Val(q[4])))
Asks(st, qs) == FoldLeft(LAMBDA a, q: LET r == Ask(a.st, q) IN R(r.st, Append(a.v, r.v)), R(st, <<>>), qs)
Question(qs) == LET r == Asks(St, qs) IN /\ UNCHANGED <<var, cvar>> /\ Put(r.st, <<"ask", qs>>, List(r.v))

(* what a class has is decided by its chain; objects have the fields of their class only *)
TypeOK == /\ \A c \in DOMAIN cls: cls[c].par < c /\ cls[c].par >= 0
          /\ \A o \in DOMAIN obj: \A f \in F \ cls[obj[o].c].iv: obj[o].f[f] = Nil
          /\ \A v \in Vars: var[v][1] = "o" => var[v][2] <= Len(obj)
Inherit == \A c \in DOMAIN cls: c > 7 => (cls[cls[c].par].iv \subseteq cls[c].iv /\ \A m \in M: LET l == Lookup(St, c, m) IN
             IF cls[c].meth[m] # <<"none">> THEN l = cls[c].meth[m] ELSE l = Lookup(St, cls[c].par, m))

Init == /\ cls = Builtin \o Classes0.cls /\ obj = Classes0.obj /\ var = Classes0.var /\ cvar = Classes0.cvar /\ cnt = 0 /\ h = <<>>
Len0 == Len(h) < Depth
(* exhaustive: every sequence of the alphabet's operations, each followed by the same questions *)
Op(a) ==
  CASE a[1] = "class" -> DefClass(a[2], a[3], {}, a[4]) [] a[1] = "def" -> Def(a[2], a[3], a[4]) [] a[1] = "meta" -> Meta(a[2], a[3], a[4])
    [] a[1] = "new" -> Make(a[2], a[3], a[4]) [] a[1] = "let" -> Assign(a[2], a[3]) [] a[1] = "clet" -> CAssign(a[2], a[3])
    [] a[1] = "set" -> SetIv(a[2], a[3], a[4]) [] a[1] = "set2" -> SetIv2(a[2], a[3], a[4], a[5]) [] a[1] = "ask" -> Question(a[2])
Bfs == Mode = "bfs" /\ Len0 /\ LET n == Len(h) - Len(Pre) IN
  IF n < 0 THEN Op(Pre[Len(h) + 1]) ELSE IF n % 2 = 1 THEN Question(Setup) ELSE \E i \in 1..Len(Alphabet): Op(Alphabet[i])

(* simulation: any operation with any operands *)
Rnd(T) == {RandomElement(T)}
Lits == {Nil, IntV(0), IntV(41), Str, Tup}
E(d) == [k \in {1} |-> RandomElement({<<"v", v>>: v \in Vars} \cup Lits \cup {<<"v", v>>: v \in {w \in Vars: var[w][1] = "o"}})][1]
Body(m) == LET k == RandomElement(1..9) n == RandomElement(1..60) f == RandomElement(F) lower == {x \in M0: Rank(x) > Rank(m)} IN
  IF m = "s" THEN (IF k < 6 THEN <<"set", f>> ELSE <<"arg", RandomElement(M0), n>>)
  ELSE IF k < 3 \/ (k > 4 /\ lower = {}) THEN (IF n % 2 = 0 THEN <<"const", n>> ELSE <<"get", f, n>>)
  ELSE CASE k = 3 -> <<"count">> [] k = 4 -> <<"put", f, n>> [] k \in {5, 6} -> <<"self", RandomElement(lower), n>> [] k = 7 -> <<"two", RandomElement(lower), RandomElement(lower)>>
         [] OTHER -> <<"field", f, RandomElement(lower)>>
Ctor(d) == LET np == RandomElement(0..2) n == RandomElement(1..3)
               one(i) == LET k == RandomElement(1..6) IN IF k < 4 /\ np > 0 THEN <<"p", RandomElement(1..np)>> ELSE IF k < 6 THEN <<"k", RandomElement(1..60)>> ELSE <<"m", RandomElement(M0)>>
           IN IF RandomElement(1..3) = 1 THEN <<>> ELSE <<[np |-> np, sets |-> [i \in 1..n |-> <<RandomElement(IF n = 1 THEN {"x", "#"} ELSE F \cup {"#"}), one(i)>>]]>>
Q(d) == LET k == RandomElement(1..18) v == E(d) c == RandomElement(CLive) f == RandomElement(F) m == RandomElement(M0) IN
  CASE k \in {1, 2, 3, 4} -> <<"send", v, m, RandomElement(1..7)>> [] k = 5 -> <<"send", <<"c", c>>, m, RandomElement(1..7)>> [] k = 6 -> <<"sendarg", v, E(d), RandomElement(1..2)>>
    [] k \in {7, 8} -> <<"get", <<"v", RandomElement(Vars)>>, f>> [] k = 9 -> <<"has", v, m, RandomElement(1..2)>> [] k = 10 -> <<"isa", v, c, RandomElement(1..2)>> [] k = 11 -> <<"sub", v, c>>
    [] k = 12 -> <<"get2", <<"v", RandomElement(Vars)>>, f, RandomElement(F)>> [] k = 13 -> <<"same", <<"v", RandomElement(Vars)>>, <<"v", RandomElement(Vars)>>>>
    [] k = 15 -> <<"hasf", v, f>> [] k = 16 -> <<"qsend", v, m>> [] k = 17 -> <<"qarg", v, E(d)>> [] k = 18 -> <<"cnt">>
    [] k = 14 -> <<"samef", <<"v", RandomElement(Vars)>>, f, <<"v", RandomElement(Vars)>>>>
Own(d) == LET k == RandomElement(1..8) IN IF k < 5 THEN <<"c", RandomElement(CLive)>> ELSE IF k = 5 THEN <<"b", RandomElement(1..7)>> ELSE <<"k", RandomElement(Vars)>>
\* a history begins with classes, then methods, then objects
Phase(n, k) == IF n < 3 THEN 1 ELSE IF n < 9 THEN 2 ELSE IF n < 12 THEN 6 ELSE k
Sim == Mode = "sim" /\ Len0 /\ \E t \in 1..6: \E k \in {Phase(Len(h), RandomElement(1..(20 + 0 * t)))}:
  CASE CLive = {} \/ k = 1 -> \E c \in Rnd(CVars): \E p \in Rnd(CLive \cup {"Object"}): \E ct \in {Ctor(t)}: DefClass(c, p, {}, ct)
    [] k \in {2, 3, 4} -> \E w \in {Own(t)}: \E m \in Rnd(M): \E b \in {Body(m)}: Def(w, m, b)
    [] k = 5 -> \E c \in Rnd(CLive): \E m \in Rnd(M0): \E b \in {Body(m)}: Meta(c, m, b)
    [] k \in {6, 7} -> \E v \in Rnd(Vars): \E c \in Rnd(CLive): \E as \in {[i \in 1..cls[cvar[c]].ctor.np |-> E(i)]}: Make(v, c, as)
    [] k = 8 -> \E v \in Rnd(Vars): \E e \in {E(t)}: Assign(v, e)
    [] k = 9 -> \E c \in Rnd(CVars): \E d \in Rnd(CLive): CAssign(c, d)
    [] k \in {10, 11} -> \E v \in Rnd(Vars): \E f \in Rnd(F): \E e \in {E(t)}: SetIv(v, f, e)
    [] k = 12 -> \E v \in Rnd(Vars): \E f \in Rnd(F): \E g \in Rnd(F): \E e \in {E(t)}: SetIv2(v, f, g, e)
    [] OTHER -> \E n \in Rnd(2..6): \E qs \in {[i \in 1..n |-> Q(i)]}: Question(qs)
End == Len(h) = Depth /\ h' = Append(h, [op |-> <<"end">>, out |-> <<"-">>]) /\ UNCHANGED <<cls, obj, var, cvar, cnt>>
Next == Bfs \/ Sim \/ End
Spec == Init /\ [][Next]_vars
Emit == (Len(h) = Depth + 1) => PrintT(<<"@O", ToJson(h)>>)
=============================================================================
