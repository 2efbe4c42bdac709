-------------------------------- MODULE Sort --------------------------------
(* Sorting.  The meaning of sort is given twice: as the end of every run of the system that
   exchanges neighbours which are out of order (Swap), and as the sequence by counting (Sorted);
   TLC checks that every maximal run of the first ends in the second.  Numbers stand for the
   values of Val, in ascending order; a comparison looks at Key(c) of them only.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS NV, MaxLen, Mode, Lens,
          Keys           \* Keys[c][v]: what comparison c sees of value v
VARIABLES list, orig, c, n
vars == <<list, orig, c, n>>
V == 1..NV
Key(k, v) == Keys[k][v]
Inv(k, s) == {i \in 1..Len(s) - 1: Key(k, s[i]) > Key(k, s[i + 1])}
Ordered(k, s) == Inv(k, s) = {}
Count(s, v) == Cardinality({i \in 1..Len(s): s[i] = v})
Permutation(s, t) == Len(s) = Len(t) /\ \A v \in V: Count(s, v) = Count(t, v)
\* the keys of the sorted list: each as often as in s, ascending
KeySeq(k, s) == LET ks == {Key(k, v): v \in V}
                    N(x) == Cardinality({i \in 1..Len(s): Key(k, s[i]) = x})
                    ord == SetToSortSeq(ks, LAMBDA a, b: a < b)
                IN FoldLeft(LAMBDA t, x: t \o [i \in 1..N(x) |-> x], <<>>, ord)
Asc(s) == FoldLeft(LAMBDA t, v: t \o [i \in 1..Count(s, v) |-> v], <<>>, [v \in V |-> v])

Swap == /\ Mode = "swap" /\ \E i \in Inv(c, list): list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]]
        /\ UNCHANGED <<orig, c, n>>
Lists == UNION {[1..k -> V]: k \in 0..MaxLen}
Init == IF Mode = "swap" THEN list \in Lists /\ orig = list /\ c \in DOMAIN Keys /\ n = 0
        ELSE list = <<>> /\ orig = <<>> /\ c = 1 /\ n = 0
Build == Mode = "bfs" /\ Len(list) < MaxLen /\ \E v \in V: list' = Append(list, v) /\ UNCHANGED <<orig, c, n>>
\* simulated: a random list, in runs, sometimes nearly sorted
Shape(l, k) == LET s == [i \in 1..l |-> RandomElement(V)] IN
  CASE k = 1 -> s [] k = 2 -> Asc(s) [] k = 3 -> Reverse(Asc(s)) [] k = 4 -> [i \in 1..l |-> IF i % 2 = 0 THEN s[1] ELSE s[l]]
    [] k = 5 -> (LET a == Asc(s) IN IF l < 2 THEN a ELSE [a EXCEPT ![RandomElement(1..l)] = s[1]]) [] OTHER -> Asc(SubSeq(s, 1, l \div 2)) \o Asc(SubSeq(s, (l \div 2) + 1, l))
Sim == /\ Mode = "sim" /\ n < 40 /\ n' = n + 1 /\ UNCHANGED <<orig, c>>
       /\ \E l \in {RandomElement(Lens)}: \E k \in {RandomElement(1..6)}: \E s \in {Shape(l, k)}: list' = TLCEval(s)
Next == Swap \/ Build \/ Sim
Spec == Init /\ [][Next]_vars

\* every swap keeps a permutation; where no swap is left the keys are KeySeq
Perm == Mode = "swap" => Permutation(list, orig)
Done == (Mode = "swap" /\ Ordered(c, list)) => [i \in 1..Len(list) |-> Key(c, list[i])] = KeySeq(c, orig)
Sound == (Mode = "swap") => (Ordered(1, Asc(orig)) /\ Permutation(Asc(orig), orig))
Emit == (Mode = "bfs" \/ (Mode = "sim" /\ n > 0)) => PrintT(<<"@S", ToJson([l |-> list, asc |-> Asc(list), keys |-> [k \in DOMAIN Keys |-> KeySeq(k, list)]])>>)
Terminates == <>[](Ordered(c, list))
SwapSpec == Spec /\ WF_vars(Swap)
=============================================================================
