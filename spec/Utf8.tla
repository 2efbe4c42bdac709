-------------------------------- MODULE Utf8 --------------------------------
(* Encoding of code points as bytes, RFC 3629. *)
EXTENDS Integers, Sequences, SequencesExt
Enc(c) == IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == FoldLeft(LAMBDA t, c: t \o Enc(c), <<>>, s)
\* [ok, s]: the code points, if the bytes are well formed
DecStep(t, b) ==
  IF ~t.ok THEN t
  ELSE IF t.n > 0 THEN (IF b \div 64 # 2 THEN [t EXCEPT !.ok = FALSE]
                        ELSE LET a == t.a * 64 + (b % 64) IN
                             IF t.n = 1 THEN [t EXCEPT !.n = 0, !.a = 0, !.s = Append(@, a), !.ok = Len(Enc(a)) = t.l] ELSE [t EXCEPT !.n = @ - 1, !.a = a])
  ELSE IF b < 128 THEN [t EXCEPT !.s = Append(@, b)]
  ELSE IF b \div 32 = 6 THEN [t EXCEPT !.n = 1, !.l = 2, !.a = b % 32]
  ELSE IF b \div 16 = 14 THEN [t EXCEPT !.n = 2, !.l = 3, !.a = b % 16]
  ELSE IF b \div 8 = 30 THEN [t EXCEPT !.n = 3, !.l = 4, !.a = b % 8]
  ELSE [t EXCEPT !.ok = FALSE]
Dec(bs) == LET r == FoldLeft(DecStep, [ok |-> TRUE, n |-> 0, l |-> 0, a |-> 0, s |-> <<>>], bs) IN [ok |-> r.ok /\ r.n = 0, s |-> r.s]
LexLess(a, b) == LET n == {i \in 1..Len(a): i <= Len(b) /\ a[i] # b[i]}
  IN IF n = {} THEN Len(a) < Len(b) ELSE LET i == CHOOSE i \in n: \A j \in n: i <= j IN a[i] < b[i]
\* sequences of code points of ASCII texts, as JSON friendly constants
Digits(k) == LET RECURSIVE D(_)  D(m) == IF m < 10 THEN <<48 + m>> ELSE Append(D(m \div 10), 48 + (m % 10)) IN IF k < 0 THEN <<45>> \o D(-k) ELSE D(k)
=============================================================================
