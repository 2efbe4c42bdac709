--------------------------------- MODULE Big ---------------------------------
(* Integers of any size: <<sign, limbs>> with limbs of four decimal digits, lowest first,
   no leading zero limbs, zero = <<1, <<>>>>.  (TLC's own integers have 32 bits.)        *)
EXTENDS Integers, Sequences, TLC, SequencesExt
BB == 10000
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))
RECURSIVE Limbs(_)
Limbs(k) == IF k = 0 THEN <<>> ELSE <<k % BB>> \o Limbs(k \div BB)
At0(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Carry(s) == LET r == FoldLeft(LAMBDA a, x: [c |-> (x + a.c) \div BB, s |-> Append(a.s, (x + a.c) % BB)], [c |-> 0, s |-> <<>>], s) IN Trim(r.s \o Limbs(r.c))
MaxL(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
NAdd(a, b) == Carry([i \in 1..MaxL(a, b) |-> At0(a, i) + At0(b, i)])
NSub(a, b) == Carry([i \in 1..Len(a) |-> a[i] - At0(b, i)])              \* a >= b
NScale(a, k) == Carry([i \in 1..Len(a) |-> a[i] * k])                      \* k < BB
NShift(a, n) == IF a = <<>> THEN a ELSE [i \in 1..n |-> 0] \o a
NMul(a, b) == LET r == FoldLeft(LAMBDA t, x: [i |-> t.i + 1, s |-> NAdd(t.s, NShift(NScale(a, x), t.i))], [i |-> 0, s |-> <<>>], b) IN r.s
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET d == {i \in 1..Len(a): a[i] # b[i]} IN IF d = {} THEN 0 ELSE LET i == CHOOSE i \in d: \A j \in d: j <= i IN IF a[i] < b[i] THEN -1 ELSE 1
\* quotient and remainder; one limb of the quotient at a time, found by bisection
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF NCmp(NScale(b, m), r) <= 0 THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
NDiv(a, b) ==
  LET r == FoldLeft(LAMBDA t, x: LET rr == Trim(<<x>> \o t.r)  d == Digit(rr, b, 0, BB - 1) IN [r |-> NSub(rr, NScale(b, d)), q |-> <<d>> \o t.q],
                    [r |-> <<>>, q |-> <<>>], Reverse(a))
  IN [q |-> Trim(r.q), r |-> r.r]

Mk(s, l) == IF l = <<>> THEN <<1, <<>>>> ELSE <<s, l>>
Big(k) == Mk(IF k < 0 THEN -1 ELSE 1, Limbs(IF k < 0 THEN -k ELSE k))
BNeg(a) == Mk(-a[1], a[2])
BAbs(a) == Mk(1, a[2])
BAdd(a, b) == IF a[1] = b[1] THEN Mk(a[1], NAdd(a[2], b[2]))
              ELSE IF NCmp(a[2], b[2]) >= 0 THEN Mk(a[1], NSub(a[2], b[2])) ELSE Mk(b[1], NSub(b[2], a[2]))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(a[1] * b[1], NMul(a[2], b[2]))
BCmp(a, b) == IF a = b THEN 0 ELSE LET d == BSub(a, b) IN d[1]
BQuo(a, b) == Mk(a[1] * b[1], NDiv(a[2], b[2]).q)          \* toward zero
BRem(a, b) == Mk(a[1], NDiv(a[2], b[2]).r)                 \* sign of the dividend
BFloor(a, b) == LET q == BQuo(a, b) IN IF BMul(q, b) = a \/ a[1] = b[1] THEN q ELSE BSub(q, Big(1))    \* b # 0
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN Big(1) ELSE LET h == BPow(a, k \div 2) IN IF k % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), a)
Small(a) == a[1] * FoldRight(LAMBDA x, t: t * BB + x, a[2], 0)       \* back to a TLC integer
Pad4(k) == (IF k < 10 THEN "000" ELSE IF k < 100 THEN "00" ELSE IF k < 1000 THEN "0" ELSE "") \o ToString(k)
BShow(a) == IF a[2] = <<>> THEN "0" ELSE (IF a[1] < 0 THEN "-" ELSE "") \o ToString(a[2][Len(a[2])]) \o
            FoldRight(LAMBDA x, t: t \o Pad4(x), SubSeq(a[2], 1, Len(a[2]) - 1), "")
\* digits in any base, most significant first
FromDigits(ds, base) == FoldLeft(LAMBDA t, d: BAdd(BMul(t, Big(base)), Big(d)), Big(0), ds)
Two62 == BPow(Big(2), 62)
MaxInt == BSub(Two62, Big(1))
MinInt == BNeg(Two62)
InRange(a) == BCmp(MinInt, a) <= 0 /\ BCmp(a, MaxInt) <= 0
Laws(S) == \A a \in S, b \in S: /\ BSub(BAdd(a, b), b) = a /\ BMul(a, b) = BMul(b, a) /\ BCmp(a, b) = -BCmp(b, a)
   /\ (b # Big(0) => LET q == BQuo(a, b) r == BRem(a, b) IN BAdd(BMul(q, b), r) = a /\ NCmp(r[2], b[2]) < 0)
=============================================================================
