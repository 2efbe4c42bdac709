--------------------------------- MODULE Peg ---------------------------------
(* Parsing expression grammars.  M(G, e, s, p) is what expression e of grammar G does at position p of input s:
   whether it matches, the position after it, the deferred actions of the match, and the immediate effects
   (error actions), which stay even when the match fails.  A parser is used again and again on what is left of
   its input: the state is the grammar, the input, where the next parse starts and what the parses did.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, MaxOps, NR, Leaves, Inputs, Deep, InLen, Chars
VARIABLES g, inp, at, res, n
vars == <<g, inp, at, res, n>>
R(ok, p, th, im) == [ok |-> ok, p |-> p, th |-> th, im |-> im]
Fail(im) == R(FALSE, 0, <<>>, im)
RECURSIVE M(_, _, _, _), Rep(_, _, _, _, _)
\* e any number of times from r on
Rep(G, e, s, r, k) == LET q == M(G, e, s, r.p) IN
  IF ~q.ok \/ k = 0 THEN [r EXCEPT !.im = @ \o q.im] ELSE Rep(G, e, s, R(TRUE, q.p, r.th \o q.th, r.im \o q.im), k - 1)
After(r, q) == IF q.ok THEN R(TRUE, q.p, r.th \o q.th, r.im \o q.im) ELSE Fail(r.im \o q.im)
M(G, e, s, p) ==
  CASE e[1] = "lit" -> IF p + Len(e[2]) <= Len(s) /\ SubSeq(s, p + 1, p + Len(e[2])) = e[2] THEN R(TRUE, p + Len(e[2]), <<>>, <<>>) ELSE Fail(<<>>)
    [] e[1] = "cls" -> IF p < Len(s) /\ ((s[p + 1] \in e[2]) # e[3]) THEN R(TRUE, p + 1, <<>>, <<>>) ELSE Fail(<<>>)
    [] e[1] = "dot" -> IF p < Len(s) THEN R(TRUE, p + 1, <<>>, <<>>) ELSE Fail(<<>>)
    [] e[1] = "seq" -> LET r == M(G, e[2], s, p) IN IF ~r.ok THEN r ELSE After(r, M(G, e[3], s, r.p))
    [] e[1] = "alt" -> LET r == M(G, e[2], s, p) IN IF r.ok THEN r ELSE LET q == M(G, e[3], s, p) IN [q EXCEPT !.im = r.im \o @]
    [] e[1] = "opt" -> LET r == M(G, e[2], s, p) IN IF r.ok THEN r ELSE R(TRUE, p, <<>>, r.im)
    [] e[1] = "star" -> Rep(G, e[2], s, R(TRUE, p, <<>>, <<>>), Len(s) + 1)
    [] e[1] = "plus" -> LET r == M(G, e[2], s, p) IN IF ~r.ok THEN r ELSE Rep(G, e[2], s, r, Len(s) + 1)
    [] e[1] = "and" -> LET r == M(G, e[2], s, p) IN IF r.ok THEN R(TRUE, p, <<>>, r.im) ELSE Fail(r.im)
    [] e[1] = "not" -> LET r == M(G, e[2], s, p) IN IF r.ok THEN Fail(r.im) ELSE R(TRUE, p, <<>>, r.im)
    [] e[1] = "act" -> R(TRUE, p, <<<<"act", e[2]>>>>, <<>>)
    [] e[1] = "cap" -> LET r == M(G, e[2], s, p) IN IF ~r.ok THEN r ELSE [r EXCEPT !.th = @ \o <<<<"text", e[3], SubSeq(s, p + 1, r.p)>>>>]
    [] e[1] = "pred" -> LET r == M(G, e[2], s, p) IN IF ~r.ok \/ r.p - p >= e[3] THEN r ELSE Fail(r.im)      \* at least so long
    [] e[1] = "err" -> LET r == M(G, e[2], s, p) IN IF r.ok THEN r ELSE Fail(r.im \o <<e[3]>>)
    [] e[1] = "rule" -> LET r == M(G, G[e[2]], s, p) IN [r EXCEPT !.th = <<<<"push">>>> \o @ \o <<<<"pop">>>>]
    [] e[1] = "bind" -> LET r == M(G, G[e[3]], s, p) IN [r EXCEPT !.th = <<<<"push">>>> \o @ \o <<<<"pop">>, <<"set", e[2]>>>>]
    [] e[1] = "val" -> R(TRUE, p, <<e>>, <<>>)                    \* the rule's value: a constant plus multiples of variables
(* the deferred actions in order; yy is the last value made *)
NoVars == [v |-> 0, w |-> 0, u |-> 0]
Do(st, t) ==
  CASE t[1] = "push" -> [st EXCEPT !.fr = Append(@, NoVars)] [] t[1] = "pop" -> [st EXCEPT !.fr = Front(@)]
    [] t[1] = "set" -> [st EXCEPT !.fr = Append(Front(@), [Last(@) EXCEPT ![t[2]] = st.yy])]
    [] t[1] = "act" -> [st EXCEPT !.log = Append(@, <<t[2]>>)]
    [] t[1] = "text" -> [st EXCEPT !.log = Append(@, <<t[2]>> \o t[3])]
    [] t[1] = "val" -> LET x == (t[2] + FoldLeft(LAMBDA a, m: a + m[2] * Last(st.fr)[m[1]], 0, t[3])) % 9973 IN [st EXCEPT !.yy = x, !.log = Append(@, <<100, x>>)]
Run(th) == FoldLeft(Do, [fr |-> <<NoVars>>, yy |-> 0, log |-> <<>>], th)
\* one parse: accepted, characters consumed, what the actions did
Parse(G, k, s) == LET r == M(G, G[k], s, 0) IN <<r.ok, IF r.ok THEN r.p ELSE 0, [i \in 1..Len(r.im) |-> <<r.im[i]>>] \o (IF r.ok THEN Run(r.th).log ELSE <<>>)>>

(* the other operators are abbreviations of sequence, choice, not and repetition *)
RECURSIVE Core(_)
Core(e) == CASE e[1] \in {"seq", "alt"} -> <<e[1], Core(e[2]), Core(e[3])>>
  [] e[1] = "opt" -> <<"alt", Core(e[2]), <<"lit", <<>>>>>> [] e[1] = "plus" -> LET c == Core(e[2]) IN <<"seq", c, <<"star", c>>>>
  [] e[1] = "and" -> <<"not", <<"not", Core(e[2])>>>> [] e[1] \in {"star", "not"} -> <<e[1], Core(e[2])>>
  [] e[1] = "cap" -> <<"cap", Core(e[2]), e[3]>> [] OTHER -> e

RECURSIVE Nullable(_), Holes(_), Plug(_, _, _), Fill(_, _, _)
\* may match nothing (rules: assumed they may)
Nullable(e) == CASE e[1] = "lit" -> e[2] = <<>> [] e[1] \in {"cls", "dot"} -> FALSE [] e[1] = "seq" -> Nullable(e[2]) /\ Nullable(e[3])
  [] e[1] = "alt" -> Nullable(e[2]) \/ Nullable(e[3]) [] e[1] \in {"plus", "cap", "err"} -> Nullable(e[2]) [] e[1] = "pred" -> e[3] = 0 /\ Nullable(e[2]) [] OTHER -> TRUE
RECURSIVE Loops(_)
Loops(e) == CASE e[1] \in {"seq", "alt"} -> Loops(e[2]) \/ Loops(e[3]) [] e[1] \in {"star", "plus"} -> Nullable(e[2]) \/ Loops(e[2])
  [] e[1] \in {"opt", "and", "not", "cap", "err", "pred"} -> Loops(e[2]) [] OTHER -> FALSE
(* every expression of up to MaxOps operators, as in Group.tla; leaf i is followed by action i *)
Hole == <<"h">>
Holes(t) == CASE t[1] = "h" -> 1 [] t[1] \in {"seq", "alt"} -> Holes(t[2]) + Holes(t[3]) [] OTHER -> Holes(t[2])
Plug(t, k, s) == CASE t[1] = "h" -> IF k = 1 THEN s ELSE t
  [] t[1] \in {"seq", "alt"} -> LET m == Holes(t[2]) IN <<t[1], Plug(t[2], k, s), IF k > m THEN Plug(t[3], k - m, s) ELSE t[3]>>
  [] OTHER -> [t EXCEPT ![2] = Plug(t[2], k, s)]
Fill(t, v, k) == CASE t[1] = "h" -> <<"seq", v[((k - 1) % Len(v)) + 1], <<"act", k>>>>
  [] t[1] \in {"seq", "alt"} -> <<t[1], Fill(t[2], v, k), Fill(t[3], v, k + Holes(t[2]))>>
  [] OTHER -> [t EXCEPT ![2] = Fill(t[2], v, k)]
Pieces == {<<o, Hole, Hole>>: o \in {"seq", "alt"}} \cup {<<o, Hole>>: o \in {"opt", "star", "plus", "and", "not"}} \cup {<<"cap", Hole, 50>>, <<"err", Hole, 60>>, <<"pred", Hole, 2>>}
\* captures, and tests of their length, do not nest
RECURSIVE Flat(_, _)
Flat(t, in) == CASE t[1] = "h" -> TRUE [] t[1] \in {"seq", "alt"} -> Flat(t[2], in) /\ Flat(t[3], in)
  [] t[1] \in {"cap", "pred"} -> ~in /\ Flat(t[2], TRUE) [] OTHER -> Flat(t[2], in)

(* random grammars *)
Rnd(T) == RandomElement(T)
Leaf(d) == Rnd(Leaves)
RECURSIVE Ex(_, _, _), Body(_)
\* an expression of rule r; c: some input has been read before it in the same rule
Body(d) == LET k == Rnd(1..4) IN CASE k = 1 -> <<"seq", Leaf(d), <<"opt", Leaf(d + 1)>>>> [] k = 2 -> <<"alt", Leaf(d), Leaf(d + 1)>> [] OTHER -> Leaf(d)
Ref(r, c) == IF c THEN Rnd(1..NR) ELSE Rnd((r + 1)..NR)
Ex(r, d, c) == LET k == Rnd(1..17) IN
  CASE k \in {1, 2, 3} /\ d > 0 -> LET l == Leaf(d) IN <<"seq", l, Ex(r, d - 1, c \/ ~Nullable(l))>>
    [] k \in {4, 5} /\ d > 0 -> <<"seq", Ex(r, d - 1, c), Ex(r, d - 1, c)>>
    [] k \in {6, 7} /\ d > 0 -> <<"alt", Ex(r, d - 1, c), Ex(r, d - 1, c)>>
    [] k = 8 /\ d > 0 -> <<Rnd({"opt", "and", "not"}), Ex(r, d - 1, c)>>
    [] k = 9 -> <<Rnd({"star", "plus"}), Body(d)>>
    [] k = 10 /\ d > 0 -> <<"star", <<"seq", Leaf(d), Ex(r, d - 1, TRUE)>>>>
    [] k \in {11, 12} /\ (c \/ r < NR) -> <<"rule", Ref(r, c)>>
    [] k = 13 -> <<"cap", IF Rnd(1..2) = 1 THEN Body(d) ELSE <<"star", Leaf(d)>>, Rnd(50..59)>>
    [] k = 14 -> <<"pred", <<"star", Leaf(d)>>, Rnd(0..2)>>
    [] k = 15 /\ d > 0 -> <<"err", Ex(r, d - 1, c), Rnd(60..69)>>
    [] k = 16 -> <<"act", Rnd(1..40)>>
    [] OTHER -> Leaf(d)
\* a rule makes its value at the end of every alternative from the rules bound in it
Alt(r, d, vs) == LET l == Leaf(d) IN
  LET bs == [i \in 1..Len(vs) |-> <<"seq", IF i = 1 THEN l ELSE Leaf(d + i), <<"bind", vs[i], Rnd(1..NR)>>>>] IN
  LET e == FoldRight(LAMBDA b, a: <<"seq", b, a>>, bs, <<"seq", Ex(r, d, Len(vs) > 0), <<"val", Rnd(0..99), [i \in 1..Len(vs) |-> <<vs[i], Rnd(1..7)>>]>>>>) IN e
Rule(r, d) == LET a == Alt(r, d, Rnd({<<>>, <<"v">>, <<"v", "w">>, <<"w", "u", "v">>})) b == Alt(r, d, Rnd({<<>>, <<"w">>, <<"u", "v">>})) IN
  <<"alt", a, IF Rnd(1..2) = 1 THEN b ELSE <<"alt", b, <<"seq", Leaf(d), <<"val", Rnd(0..99), <<>>>>>>>>>>
\* leaves of these must read something, else rules could call themselves for ever
Sound(G) == \A r \in 1..Len(G): ~Loops(G[r])

Init == g = Hole /\ inp = <<>> /\ at = 0 /\ res = <<>> /\ n = 0
Grow == /\ Mode = "bfs" /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<inp, at, res>>
        /\ \E k \in 1..Holes(g), p \in Pieces: g' = Plug(g, k, p) /\ Flat(g', FALSE)
\* random: a grammar, an input, then parses until one fails or the input is used up
MkG == /\ Mode = "sim" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<inp, at, res>> /\ \E t \in 1..4: g' = TLCEval([r \in 1..NR |-> Rule(r, Deep + 0 * t)]) /\ Sound(g')
MkI == /\ Mode = "sim" /\ n = 1 /\ n' = 2 /\ UNCHANGED <<g, at, res>>
       /\ \E t \in 1..2: inp' = TLCEval([j \in 1..12 |-> [i \in 1..Rnd(0..(InLen + 0 * t)) |-> Rnd(Chars)]])
Next == Grow \/ MkG \/ MkI
Spec == Init /\ [][Next]_vars
Vectors == Leaves
\* several parses of what is left, until one fails, reads nothing or three are done
RECURSIVE Parses(_, _, _, _)
Parses(G, k, s, m) == LET r == Parse(G, k, s) IN <<r>> \o (IF r[1] /\ r[2] > 0 /\ m > 1 THEN Parses(G, k, SubSeq(s, r[2] + 1, Len(s)), m - 1) ELSE <<>>)
Strs == Inputs
EmitB == (Mode = "bfs" /\ n > 0) => \A i \in 1..Len(Vectors): LET e == Fill(g, Vectors[i], 1) IN Loops(e) \/
   LET rs == [j \in 1..Len(Strs) |-> Parse(<<e>>, 1, Strs[j])] c == <<Core(e)>> IN
   /\ (~\E j \in 1..Len(Strs): rs[j] # Parse(c, 1, Strs[j])) \/ Assert(FALSE, <<"abbreviations", e>>)
   /\ PrintT(<<"@P", ToJson([g |-> <<e>>, r |-> [j \in 1..Len(rs) |-> <<1, j, <<rs[j]>>>>]])>>)
EmitS == (Mode = "sim" /\ n = 2) => PrintT(<<"@P", ToJson([g |-> g, s |-> inp, r |-> [j \in 1..Len(inp) |-> <<((j - 1) % NR) + 1, j, Parses(g, ((j - 1) % NR) + 1, inp[j], 3)>>]])>>)
=============================================================================
