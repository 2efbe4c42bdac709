------------------------------- MODULE Notation -------------------------------
(* How grammars write characters.  An item is a character in some notation, a class is a list of items and ranges,
   a literal a list of items.  Read gives the characters back from the written text; every text written for a list
   of characters must be read as that list (checked here), and the generated parser must match just these.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, MaxItems, Interesting
VARIABLES items, n
vars == <<items, n>>
Rnd(T) == RandomElement(T)
BSl == 92
Letters == <<<<97, 7>>, <<98, 8>>, <<101, 27>>, <<102, 12>>, <<110, 10>>, <<114, 13>>, <<116, 9>>, <<118, 11>>>>
Selfs == {45, 39, 34, 91, 92, 93}                    \* - ' " [ \ ] may follow a backslash and stand for themselves
Oct(v) == 48 + v
Hex(v, up) == IF v < 10 THEN 48 + v ELSE (IF up THEN 55 ELSE 87) + v
IsOct(c) == c \in 48..55
IsHex(c) == c \in 48..57 \cup 65..70 \cup 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
\* the ways to write character c, given what may not stand raw
Ways(c, noraw) ==
  (IF c \notin noraw /\ c # BSl /\ c # 0 THEN {<<c>>} ELSE {})
  \cup (IF c \in Selfs THEN {<<BSl, c>>} ELSE {})
  \cup {<<BSl, Letters[i][1]>>: i \in {i \in 1..Len(Letters): Letters[i][2] = c}}
  \cup {<<BSl, Oct(c \div 64), Oct((c \div 8) % 8), Oct(c % 8)>>}
  \cup (IF c < 64 THEN {<<BSl, Oct(c \div 8), Oct(c % 8)>>} ELSE {}) \cup (IF c < 8 THEN {<<BSl, Oct(c)>>} ELSE {})
  \cup {<<BSl, 120, Hex(c \div 16, u), Hex(c % 16, u)>>: u \in BOOLEAN} \cup (IF c < 16 THEN {<<BSl, 120, Hex(c, TRUE)>>} ELSE {})
(* reading: one character off the front of t: what it is and how much was read *)
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
One(t) == IF t[1] # BSl THEN <<t[1], 1>>
  ELSE LET c == t[2] IN
    CASE \E i \in 1..Len(Letters): Letters[i][1] = c -> <<Letters[CHOOSE i \in 1..Len(Letters): Letters[i][1] = c][2], 2>>
      [] c = 120 -> IF IsHex(At(t, 4)) THEN <<16 * HexVal(t[3]) + HexVal(t[4]), 4>> ELSE <<HexVal(t[3]), 3>>
      [] IsOct(c) -> IF ~IsOct(At(t, 3)) THEN <<c - 48, 2>> ELSE IF ~IsOct(At(t, 4)) \/ c > 51 THEN <<8 * (c - 48) + t[3] - 48, 3>>
                     ELSE <<64 * (c - 48) + 8 * (t[3] - 48) + t[4] - 48, 4>>
      [] OTHER -> <<c, 2>>
RECURSIVE Chars(_), Set(_, _)
Chars(t) == IF t = <<>> THEN <<>> ELSE LET o == One(t) IN <<o[1]>> \o Chars(SubSeq(t, o[2] + 1, Len(t)))
\* the body of a class: prev is <<>> or <<a character a range may start with>>
Set(t, prev) == IF t = <<>> THEN {}
  ELSE IF t[1] = 45 /\ Len(t) > 1 /\ prev # <<>> THEN LET o == One(Tail(t)) IN prev[1]..o[1] \cup Set(SubSeq(t, o[2] + 2, Len(t)), <<>>)
  ELSE LET o == One(t) IN {o[1]} \cup Set(SubSeq(t, o[2] + 1, Len(t)), <<o[1]>>)

\* an escape of fewer digits than it could have must not be followed by a digit
Short(w) == Len(w) > 1 /\ w[1] = BSl /\ (IF w[2] = 120 THEN Len(w) = 3 ELSE IsOct(w[2]) /\ Len(w) < 4)
Joins(w, next) == Short(w) /\ next # 0 /\ (IF w[2] = 120 THEN IsHex(next) ELSE IsOct(next))
Ch == IF Rnd(1..3) = 1 THEN Rnd(0..255) ELSE Rnd(Interesting)
\* class items <<text, characters>>
ClsItem(x) == LET a == Ch + 0 * x b == Ch + 0 * x k == Rnd(1..3) IN
  LET lo == IF a < b THEN a ELSE b hi == IF a < b THEN b ELSE a IN
  IF k = 1 THEN <<Rnd(Ways(lo, {93, 94, 45})) \o <<45>> \o Rnd(Ways(hi, {93, 94, 45})), lo..hi>> ELSE <<Rnd(Ways(a, {93, 94, 45})), {a}>>
LitItem(x, q) == LET a == Ch + 0 * x IN <<Rnd(Ways(a, {q})), {a}>>
LastOf(t) == LET i == CHOOSE i \in 1..Len(t): t[i] = BSl /\ \A j \in (i + 1)..Len(t): t[j] # BSl IN SubSeq(t, i, Len(t))
Clash(t, next) == next # <<>> /\ (\E i \in 1..Len(t): t[i] = BSl) /\ Joins(LastOf(t), next[1])
Init == items = <<>> /\ n = 0
(* kind: "cls"/"ncls" or the quote of a literal *)
Start == n = 0 /\ n' = 1 /\ \E k \in {"cls", "ncls", "lit'", "lit\""}: items' = <<k>>
More == /\ n > 0 /\ Len(items) <= MaxItems /\ n' = n + 1
        /\ \E t \in 1..3: \E it \in {TLCEval(IF items[1] \in {"cls", "ncls"} THEN ClsItem(n + t) ELSE LitItem(n + t, IF items[1] = "lit'" THEN 39 ELSE 34))}:
              /\ IF Len(items) = 1 THEN TRUE ELSE ~Clash(Last(items)[1], it[1])
              /\ items' = Append(items, it)
Next == Start \/ More
Spec == Init /\ [][Next]_vars
Its == Tail(items)
Text == FoldLeft(LAMBDA a, i: a \o i[1], <<>>, Its)
Want == FoldLeft(LAMBDA a, i: a \cup i[2], {}, Its)
WantL == [i \in 1..Len(Its) |-> CHOOSE c \in Its[i][2]: TRUE]
(* the same class with a dash at the front or the end *)
Emit == (n > 1) =>
  IF items[1] \in {"cls", "ncls"}
    THEN /\ Set(Text, <<>>) = Want \/ Assert(FALSE, <<"class", Text>>)
         /\ \A d \in {<<>>, <<45>>}, f \in {<<>>, <<45>>}: Set(f \o Text \o d, <<>>) = Want \cup {x \in {45}: d # <<>> \/ f # <<>>} \/ Assert(FALSE, <<"dash", Text>>)
         /\ PrintT(<<"@P", ToJson([k |-> items[1], t |-> Text, c |-> Want])>>)
    ELSE /\ (Chars(Text) = WantL) \/ Assert(FALSE, <<"literal", Text>>)
         /\ PrintT(<<"@P", ToJson([k |-> items[1], t |-> Text, c |-> WantL])>>)
=============================================================================
