------------------------------- MODULE Group -------------------------------
(* Every expression up to MaxOps operators, grown one operator at a time; its text in
   three styles, and the value it must have.  RoundTrip: the grammar's reading of the
   text is the tree the text was made from.                                        *)
EXTENDS Expr, Json
CONSTANTS MaxOps, Bins, Uns, Msgs, Lits, Mode
VARIABLES e, size
vars == <<e, size>>
Hole == <<"h">>
RECURSIVE Holes(_)
Holes(t) == CASE t[1] = "h" -> 1 [] t[1] = "op" -> Holes(t[3]) + Holes(t[4]) [] t[1] \in {"un"} -> Holes(t[3])
              [] t[1] = "msg" -> Holes(t[2]) [] OTHER -> 0
\* the k-th leaf replaced by s
RECURSIVE Plug(_, _, _)
Plug(t, k, s) == CASE t[1] = "h" -> IF k = 1 THEN s ELSE t
  [] t[1] = "op" -> LET n == Holes(t[3]) IN <<"op", t[2], Plug(t[3], k, s), IF k > n THEN Plug(t[4], k - n, s) ELSE t[4]>>
  [] t[1] = "un" -> <<"un", t[2], Plug(t[3], k, s)>>
  [] t[1] = "msg" -> <<"msg", Plug(t[2], k, s), t[3], t[4]>>
  [] OTHER -> t
\* leaves from left to right filled with the literals of vector v
RECURSIVE Fill(_, _, _)
Fill(t, v, k) == CASE t[1] = "h" -> v[((k - 1) % Len(v)) + 1]
  [] t[1] = "op" -> <<"op", t[2], Fill(t[3], v, k), Fill(t[4], v, k + Holes(t[3]))>>
  [] t[1] = "un" -> <<"un", t[2], Fill(t[3], v, k)>>
  [] t[1] = "msg" -> <<"msg", Fill(t[2], v, k), t[3], t[4]>>
Pieces == {<<"op", o, Hole, Hole>>: o \in Bins} \cup {<<"un", o, Hole>>: o \in Uns} \cup {<<"msg", Hole, m, <<>>>>: m \in Msgs}
Env == [x \in {"x", "y", "z", "w"} |-> CASE x = "x" -> I(5) [] x = "y" -> N [] x = "z" -> I(3) [] OTHER -> B(FALSE)]
Ts(t, s) == Toks(t, 0, "|", s)
Rec(t) == [v |-> Show(PureVal(t, Env)), m |-> Ts(t, "min"), f |-> Ts(t, "full"), g |-> Ts(t, "grp")]
Emit == size > 0 => \A i \in 1..Len(Lits): LET t == Fill(e, Lits[i], 1) IN
   /\ Assert(Parse(Ts(t, "min")) = t /\ Parse(Ts(t, "full")) = t /\ Parse(Ts(t, "grp")) = t, <<"round trip", t>>)
   /\ PureVal(t, Env) = Err \/ PrintT(<<"@T", ToJson(Rec(t))>>)
Init == e = Hole /\ size = 0
Grow(k, p) == e' = Plug(e, k, p) /\ size' = size + 1
Next == size < MaxOps /\ (IF Mode = "bfs" THEN \E k \in 1..Holes(e), p \in Pieces: Grow(k, p)
                        ELSE \E k \in {RandomElement(1..Holes(e))}, p \in {RandomElement(Pieces)}: Grow(k, p))
Spec == Init /\ [][Next]_vars
EmitEnd == size = MaxOps => Emit
=============================================================================
