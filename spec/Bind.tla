-------------------------------- MODULE Bind --------------------------------
(* Calls of functions and methods with up to 14 parameters.  A call gives the first of them by position, the
   ones following by name in any order, and leaves the rest, which are optional, to their defaults.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Depth, MaxN, NNames, Mode
VARIABLES fns, log, n
vars == <<fns, log, n>>
R(S) == RandomElement(S)
Draw(k, Op(_)) == FoldLeft(LAMBDA a, i: Append(a, Op(i)), <<>>, [i \in 1..k |-> i])
Nil == <<"n">>
IntV(i) == <<"i", i>>
Str(i) == <<"s", i>>
Bool(i) == <<"b", i>>
\* a random order of a sequence
Shuffle(s) == FoldLeft(LAMBDA a, x: LET k == R(0..(Len(a) + 0 * x)) IN SubSeq(a, 1, k) \o <<x>> \o SubSeq(a, k + 1, Len(a)), <<>>, s)
Upto(k) == [i \in 1..k |-> i]
\* a function: names of its parameters, how many are required, how the others are declared, their defaults
Fn(i) == LET k == R(0..(MaxN + 0 * i)) q == R(0..(k + 0 * i)) style == R({"default", "bar", "typed"} \cup (IF i > 99 THEN {""} ELSE {})) IN
  [nm |-> SubSeq(Shuffle(Upto(NNames + 0 * i)), 1, k), req |-> IF style = "typed" \/ (q = 0 /\ style = "bar") THEN k ELSE q, style |-> style, meth |-> R(1..(3 + 0 * i)) = 1,
   def |-> IF style = "typed" THEN <<>> ELSE Draw(IF q = 0 /\ style = "bar" THEN 0 ELSE k - q, LAMBDA j: IF style = "bar" THEN Nil ELSE LET c == R(1..(8 + 0 * j)) IN IF c <= 2 THEN Str(R(1..(9 + 0 * j))) ELSE IF c = 3 THEN Bool(R({0 * j, 1})) ELSE IF c = 4 THEN Nil ELSE IntV(R(0..(99 + 0 * j))))]
Normal(f) == [f EXCEPT !.def = IF f.style = "typed" THEN <<>> ELSE @, !.req = Len(f.nm) - Len(IF f.style = "typed" THEN <<>> ELSE f.def)]
\* an argument: a literal, a variable of the program, or a call of one of the functions by position
RECURSIVE Arg(_, _)
Arg(d, i) == LET k == R(1..(9 + 0 * i)) IN
  CASE k < 4 -> IntV(R(0..(99 + 0 * i))) [] k = 4 -> Str(R(1..(9 + 0 * i))) [] k = 5 -> (IF R(1..(2 + 0 * i)) = 1 THEN Nil ELSE Bool(R({0 * i, 1}))) [] k = 6 -> <<"v", R(1..(3 + 0 * i))>>
    [] k = 7 -> <<"op", R(0..(99 + 0 * i)), R(0..(99 + 0 * i))>>
    [] OTHER -> IF d = 0 THEN IntV(R(0..(99 + 0 * i))) ELSE <<"call", R(1..(Len(fns) + 0 * i)), Draw(MaxN + 0 * i, LAMBDA j: Arg(0, j)), R(0..(MaxN + 0 * i))>>
RECURSIVE Val(_), Bound(_, _, _)
Val(a) == CASE a[1] = "v" -> IntV(1000 + a[2]) [] a[1] = "op" -> IntV(a[2] + a[3] * 2)
            [] a[1] = "call" -> LET f == fns[a[2]] k == f.req + (a[4] % (Len(f.def) + 1)) IN <<"l", Bound(f, SubSeq(a[3], 1, k), <<>>)>>
            [] OTHER -> a
\* the values of the parameters: pos by position, nam a sequence of <<parameter, argument>>
Bound(f, pos, nam) == [i \in 1..Len(f.nm) |-> IF i <= Len(pos) THEN Val(pos[i])
  ELSE IF \E j \in 1..Len(nam): nam[j][1] = i THEN Val(nam[CHOOSE j \in 1..Len(nam): nam[j][1] = i][2]) ELSE f.def[i - f.req]]
Init == fns = <<>> /\ log = <<>> /\ n = 0
Declare == \E k \in {R(1..(4 + 0 * n))}: \E fs \in {Draw(k, LAMBDA j: Normal(Fn(j)))}: fns' = fs /\ UNCHANGED log
Call(t) == \E i \in {R(1..(Len(fns) + 0 * t))}: LET f == fns[i] IN \E m \in {R(f.req..(Len(f.nm) + 0 * t))}: \E k \in {R(0..(m + 0 * t))}:
  LET p == IF R(1..(2 + 0 * t)) = 1 THEN m ELSE k IN
  \E as \in {Draw(p + 0 * t, LAMBDA j: Arg(1, j))}: \E o \in {Shuffle([j \in 1..(m - Len(as)) |-> Len(as) + j])}: \E ns \in {Draw(Len(o), LAMBDA j: <<o[j], Arg(1, j)>>)}:
    /\ log' = Append(log, [f |-> i, pos |-> as, nam |-> ns, how |-> R(1..(5 + 0 * t)), out |-> Bound(f, as, ns)]) /\ UNCHANGED fns
\* every function of a given shape called every way: k by position, the next by name turned round by r
Shapes == {<<a, b>> \in (0..MaxN) \X (0..MaxN): b <= a}
Exact == n = 1 /\ \E sh \in Shapes: \E k \in 0..sh[1]: \E m \in {x \in {sh[2], sh[1]}: x >= k}: \E r \in {x \in {0, 1, m - k - 1}: x = 0 \/ (x >= 0 /\ x < m - k)}:
  LET f == [nm |-> Upto(sh[1]), req |-> sh[2], style |-> "default", meth |-> FALSE, def |-> [j \in 1..(sh[1] - sh[2]) |-> IntV(500 + j)]]
      as == [j \in 1..k |-> IntV(j)] ns == [j \in 1..(m - k) |-> LET x == k + 1 + (((j - 1) + r) % (m - k)) IN <<x, IntV(10 * x)>>]
  IN fns' = <<f>> /\ log' = <<[f |-> 1, pos |-> as, nam |-> ns, how |-> 1, out |-> Bound(f, as, ns)]>>
Next == n < Depth /\ n' = n + 1 /\ IF n = 0 THEN (IF Mode = "sim" THEN Declare ELSE UNCHANGED <<fns, log>>) ELSE IF Mode = "sim" THEN \E t \in 1..3: Call(t) ELSE Exact
Spec == Init /\ [][Next]_vars
(* every parameter is bound, and a call by position alone binds in order *)
Total == \A i \in 1..Len(log): Len(log[i].out) = Len(fns[log[i].f].nm) /\ \A j \in 1..Len(log[i].pos): log[i].out[j] = Val(log[i].pos[j])
Emit == n = Depth => PrintT(<<"@P", ToJson([f |-> fns, l |-> log])>>)
=============================================================================
