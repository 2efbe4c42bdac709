--------------------------------- MODULE Num ---------------------------------
(* Integers of potion: 63 bits, exact; + - * ** leaving the range become floating point.
   Mode "pairs": all operators on all pairs of Values.  Mode "chain": a running value.
   Mode "iter": times, to and step visit their numbers in order.
   Mode "dbl": operators with a floating point operand.  The operands are multiples of 1/16, the
   result is a rational: the number printed has to be the double nearest to it.             *)
EXTENDS Big, Json, FiniteSets
CONSTANTS Mode, Values, Depth, Offsets
VARIABLES a, b, n, h
vars == <<a, b, n, h>>
Z == Big(0)
V(x) == IF x[1] = "p" THEN BAdd(BPow(Big(2), x[2]), Big(x[3])) ELSE IF x[1] = "m" THEN BAdd(BNeg(BPow(Big(2), x[2])), Big(x[3])) ELSE Big(x[2])
Vals == TLCEval(SelectSeq([i \in 1..Len(Values) |-> V(Values[i])], InRange))
Num(x) == IF InRange(x) THEN <<"i", BShow(x)>> ELSE <<"d", BShow(x)>>
Bool(x) == <<"b", IF x THEN "true" ELSE "false">>
Un == <<"~", "abs", "-", "string">>
Apply1(o, x) == CASE o = "~" -> Num(BSub(BNeg(x), Big(1))) [] o = "abs" -> Num(BAbs(x)) [] o = "-" -> Num(BNeg(x)) [] OTHER -> <<"i", BShow(x)>>
Def1(o, x) == TRUE
Bin == <<"+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "<=>", "cmp">>
Def2(o, x, y) ==
  CASE o \in {"/", "%"} -> y # Z /\ ~(x = MinInt /\ y = Big(-1))
    [] o = "**" -> y[1] = 1 /\ BCmp(y, Big(IF Len(x[2]) <= 1 THEN 64 ELSE 5)) <= 0
    [] o = "<<" -> y[1] = 1 /\ BCmp(y, Big(63)) < 0 /\ InRange(BMul(x, BPow(Big(2), Small(y))))
    [] o = ">>" -> y[1] = 1 /\ BCmp(y, Big(63)) <= 0
    [] OTHER -> TRUE
Apply2(o, x, y) ==
  CASE o = "+" -> Num(BAdd(x, y)) [] o = "-" -> Num(BSub(x, y)) [] o = "*" -> Num(BMul(x, y))
    [] o = "/" -> Num(BQuo(x, y)) [] o = "%" -> Num(BRem(x, y)) [] o = "**" -> Num(BPow(x, Small(y)))
    [] o = "<<" -> Num(BMul(x, BPow(Big(2), Small(y)))) [] o = ">>" -> Num(BFloor(x, BPow(Big(2), Small(y))))
    [] o = "<" -> Bool(BCmp(x, y) < 0) [] o = "<=" -> Bool(BCmp(x, y) <= 0) [] o = ">" -> Bool(BCmp(x, y) > 0) [] o = ">=" -> Bool(BCmp(x, y) >= 0)
    [] o = "==" -> Bool(x = y) [] o = "!=" -> Bool(x # y) [] OTHER -> <<"i", ToString(BCmp(x, y))>>
Exact(o, x, y) == \* the big integer, for the operators giving integers
  CASE o = "+" -> BAdd(x, y) [] o = "-" -> BSub(x, y) [] o = "*" -> BMul(x, y) [] o = "/" -> BQuo(x, y) [] o = "%" -> BRem(x, y)
    [] o = "**" -> BPow(x, Small(y)) [] o = "<<" -> BMul(x, BPow(Big(2), Small(y))) [] OTHER -> BFloor(x, BPow(Big(2), Small(y)))

Init == a = Z /\ b = Z /\ n = 0 /\ h = <<>>
Pairs == CASE n = 0 -> \E i \in 1..Len(Vals): a' = Vals[i] /\ n' = 1 /\ UNCHANGED <<b, h>>
           [] n = 1 -> \E i \in 1..Len(Vals): b' = Vals[i] /\ n' = 2 /\ UNCHANGED <<a, h>>
           [] OTHER -> FALSE
EmitPair == CASE Mode = "pairs" /\ n = 2 -> PrintT(<<"@T", ToJson([a |-> BShow(a), b |-> BShow(b), r |->
      LET os == SelectSeq(Bin, LAMBDA o: Def2(o, a, b)) IN [i \in 1..Len(os) |-> <<os[i], Apply2(os[i], a, b)>>]])>>)
  [] Mode = "pairs" /\ n = 1 -> PrintT(<<"@T", ToJson([a |-> BShow(a), b |-> "", r |->
      LET os == SelectSeq(Un, LAMBDA o: Def1(o, a)) IN [i \in 1..Len(os) |-> <<os[i], Apply1(os[i], a)>>]])>>)
  [] OTHER -> TRUE
Ar == <<"+", "-", "*", "/", "%", "<<", ">>", "+", "-", "*", "**">>
Chain == n < Depth /\ \E k \in {RandomElement(n..(n + 99999))}, j \in {RandomElement(n..(n + 9999))}:
  \E o \in {Ar[(k % Len(Ar)) + 1]}: \E y \in {IF o \in {"<<", ">>", "**"} THEN Big(j % (IF o = "**" THEN 4 ELSE 20)) ELSE IF k % 3 = 0 THEN Vals[(j % Len(Vals)) + 1] ELSE Big((j % 2001) - 1000)}:
  \E e \in {IF Def2(o, a, y) THEN Exact(o, a, y) ELSE Two62}:
  /\ n' = n + 1 /\ b' = y
  /\ IF InRange(e) THEN a' = e /\ h' = Append(h, <<o, BShow(y), BShow(e)>>) ELSE UNCHANGED <<a, h>>
EmitChain == (Mode = "chain" /\ n = Depth) => PrintT(<<"@T", ToJson(h)>>)
\* visits of the iterators, from a + off
Steps(x, y, by) == [i \in 1..(IF by = 0 \/ (by > 0 /\ x > y) \/ (by < 0 /\ x < y) THEN 0 ELSE (IF y > x THEN y - x ELSE x - y) \div (IF by > 0 THEN by ELSE -by) + 1) |-> x + (i - 1) * by]
Off(s, o) == [i \in 1..Len(s) |-> BShow(BAdd(o, Big(s[i])))]
Iter == n = 0 /\ n' = 1 /\ \E o \in 1..Len(Offsets), x \in -3..4, y \in -4..5: LET f == V(Offsets[o])  t(k) == BShow(BAdd(f, Big(k))) IN
  /\ UNCHANGED <<a, b>>
  /\ InRange(BAdd(f, Big(x))) /\ InRange(BAdd(f, Big(y + 9))) /\ InRange(BAdd(f, Big(y - 2)))
  /\ \/ h' = <<"to", t(x), t(y), "", Off(Steps(x, y, IF y < x THEN -1 ELSE 1), f)>>
     \/ \E c \in 1..4: h' = <<"step", t(x), t(y), ToString(c), Off(Steps(x, y, c), f)>>
     \/ f = Z /\ h' = <<"times", ToString(x), "", "", Off(Steps(0, x - 1, 1), Z)>>
EmitIter == (Mode = "iter" /\ n = 1) => PrintT(<<"@T", ToJson(h)>>)
\* values are <<"d", v>> for v/16 and <<"i", v>> for v; the states hold numerators over 16
DV(x) == IF x[1] = "d" THEN V(x[2]) ELSE BMul(Big(16), V(x[2]))
DNum == IF Mode = "dbl" THEN TLCEval([i \in 1..Len(Values) |-> DV(Values[i])]) ELSE <<>>
Dbl == CASE n = 0 -> \E i \in 1..Len(Values): a' = DNum[i] /\ h' = <<Values[i][1]>> /\ n' = 1 /\ UNCHANGED b
         [] n = 1 -> \E i \in 1..Len(Values): b' = DNum[i] /\ h' = Append(h, Values[i][1]) /\ n' = 2 /\ UNCHANGED a
         [] OTHER -> FALSE
Q(x, y) == <<"q", BShow(x), BShow(y)>>
S16 == Big(16)
DOps == <<"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "<=>", "cmp", "==", "!=">>
DDef(o, x, y) == CASE o \in {"/", "%"} -> y # Z [] o \in {"==", "!="} -> h = <<"d", "d">> [] OTHER -> TRUE
DApply(o, x, y) == CASE o = "+" -> Q(BAdd(x, y), S16) [] o = "-" -> Q(BSub(x, y), S16) [] o = "*" -> Q(BMul(x, y), Big(256))
    [] o = "/" -> Q(IF y[1] < 0 THEN BNeg(x) ELSE x, BAbs(y)) [] o = "%" -> Q(BRem(x, y), S16)
    [] o = "<" -> Bool(BCmp(x, y) < 0) [] o = "<=" -> Bool(BCmp(x, y) <= 0) [] o = ">" -> Bool(BCmp(x, y) > 0) [] o = ">=" -> Bool(BCmp(x, y) >= 0)
    [] o = "==" -> Bool(x = y) [] o = "!=" -> Bool(x # y) [] OTHER -> <<"i", ToString(BCmp(x, y))>>
\* sqrt is asked of squares only: x * x, which is (a/16)^2
DUn == <<"-", "abs", "integer", "double", "number", "sqrt", "double?", "integer?", "number?">>
D1(o, x, d) == CASE o = "-" -> Q(BNeg(x), S16) [] o = "abs" -> Q(BAbs(x), S16) [] o = "integer" -> <<"i", BShow(BFloor(x, S16))>>
    [] o \in {"double", "number"} -> Q(x, S16) [] o = "sqrt" -> Q(BAbs(x), S16) [] o = "double?" -> Bool(d) [] o = "integer?" -> Bool(~d) [] OTHER -> Bool(TRUE)
D1Def(o, d) == d \/ o \in {"integer", "double", "double?", "integer?", "number?", "sqrt"}
ShowD(x, k) == IF k = "i" THEN BShow(BQuo(x, S16)) ELSE BShow(x)
EmitDbl == CASE Mode = "dbl" /\ n = 2 /\ h # <<"i", "i">> -> PrintT(<<"@T", ToJson([a |-> <<h[1], ShowD(a, h[1])>>, b |-> <<h[2], ShowD(b, h[2])>>, r |->
      LET os == SelectSeq(DOps, LAMBDA o: DDef(o, a, b)) IN [i \in 1..Len(os) |-> <<os[i], DApply(os[i], a, b)>>]])>>)
  [] Mode = "dbl" /\ n = 1 -> PrintT(<<"@T", ToJson([a |-> <<h[1], ShowD(a, h[1])>>, b |-> <<>>, r |->
      LET os == SelectSeq(DUn, LAMBDA o: D1Def(o, h[1] = "d")) IN [i \in 1..Len(os) |-> <<os[i], D1(os[i], a, h[1] = "d")>>]])>>)
  [] OTHER -> TRUE
\* truncated division and the remainder belong together, on rationals as on integers
DLaws == (Mode = "dbl" /\ n = 2) => b = Z \/ (LET q == BQuo(a, b) IN BAdd(BMul(q, b), BRem(a, b)) = a /\ (BRem(a, b) = Z \/ BRem(a, b)[1] = a[1]))
Next == CASE Mode = "dbl" -> Dbl [] Mode = "pairs" -> Pairs [] Mode = "chain" -> Chain [] OTHER -> Iter
Spec == Init /\ [][Next]_vars
TypeOK == Mode = "dbl" \/ (InRange(a) /\ InRange(b))
\* the arithmetic the values rest on
Laws2 == (Mode = "pairs" /\ n = 2) => Laws({a, b})
=============================================================================
