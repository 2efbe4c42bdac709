---------------------------------- MODULE Lit ----------------------------------
(* Literals: texts (lists of pieces) and the values they denote.
   Numbers: digits; the value of a decimal or hexadecimal integer as its decimal digits, and the order of
   floating point numbers (of at most 15 digits, so different numbers are different values).
   Strings: pieces as written between the quotes, and the code points they stand for.          *)
EXTENDS Big, FiniteSets, Json
CONSTANTS Depth, NChars, Codes, Quote1, Quote2, Back, MaxLen
VARIABLES n, ph, raw, rec
vars == <<n, ph, raw, rec>>
R(T) == RandomElement(T)
UpTo(k) == [i \in 1..k |-> i]
\* k drawn one by one
List(k, draw(_)) == FoldLeft(LAMBDA a, i: Append(a, draw(i)), <<>>, UpTo(k))
\* 2^62 - 1, the largest integer
Largest == MaxInt[2]
Abs(ds, base) == FoldLeft(LAMBDA a, d: NAdd(NScale(a, base), Limbs(d)), <<>>, ds)
Digits(x, k) == List(k, LAMBDA i: R(0..(9 + 0 * (x + i))))
HexDigits(x, k) == List(k, LAMBDA i: R(0..(15 + 0 * (x + i))))
Lead(ds) == IF ds[1] = 0 THEN [ds EXCEPT ![1] = 1] ELSE ds
NShow(l) == IF l = <<>> THEN <<0>> ELSE LET d == SubSeq(<<(l[Len(l)] \div 1000) % 10, (l[Len(l)] \div 100) % 10, (l[Len(l)] \div 10) % 10, l[Len(l)] % 10>>, 1, 4)
                         rest == FoldLeft(LAMBDA a, i: a \o LET y == l[Len(l) - i] IN <<(y \div 1000) % 10, (y \div 100) % 10, (y \div 10) % 10, y % 10>>, <<>>, [i \in 1..(Len(l) - 1) |-> i])
                         f == SelectSeq([i \in 1..4 |-> i], LAMBDA i: d[i] # 0)[1] IN SubSeq(d, f, 4) \o rest
(* integers *)
Dec(x) == LET k == R({1, 1, 2, 3, 5, 9, 10, 15, 18, 19, 19, 20, 25} \cup {0 * x + 1}) IN [k |-> "dec", t |-> Lead(Digits(x, k)), neg |-> R({0, 0, 1 + 0 * x}) = 1]
One(x) == [k |-> "dec", t |-> <<R(0..(9 + 0 * x))>>, neg |-> FALSE]
\* around the limits
Edge(x) == [k |-> "dec", t |-> NShow(IF R({0, 1 + 0 * x}) = 1 THEN NAdd(Largest, Limbs(R(0..9))) ELSE NSub(Largest, Limbs(R(0..9)))), neg |-> R({0, 1 + 0 * x}) = 1]
Hex(x) == LET k == R(1..(18 + 0 * x)) IN [k |-> "hex", t |-> HexDigits(x, k), up |-> List(18, LAMBDA i: R({0, 1 + 0 * (x + i)}) = 1), neg |-> FALSE]
(* floating point: digits before and after the point, exponent or none *)
Flo(x) == LET a == IF R(1..4) = 1 THEN <<0>> ELSE Lead(Digits(x, R(1..(7 + 0 * x)))) b == Digits(x, R(0..7)) e == R(-20..20) form == R({1, 2, 3}) IN
  [a |-> a, b |-> IF form = 2 THEN <<>> ELSE IF b = <<>> THEN <<5>> ELSE b, e |-> IF form = 1 THEN <<>> ELSE <<e>>, neg |-> R({0, 0, 1}) = 1 /\ a # <<0>>]
Zeros(k) == [i \in 1..k |-> 0]
\* the same number written differently: the point moved, zeros added
Same(f) == LET k == R({0, 1, 2, 3} \cup {Len(f.b)}) b == f.b \o Zeros(k) j == R(0..(Len(b) + 0 * k)) old == IF f.e = <<>> THEN 0 ELSE f.e[1] m == f.a \o SubSeq(b, 1, j)
             lead == FoldLeft(LAMBDA acc, d: IF acc = <<>> /\ d = 0 THEN <<>> ELSE Append(acc, d), <<>>, m) IN
  [f EXCEPT !.a = IF lead = <<>> THEN <<0>> ELSE lead, !.b = SubSeq(b, j + 1, Len(b)), !.e = <<old - j>>, !.neg = f.neg /\ lead # <<>>]
\* differing in one digit
Near(f) == LET i == R(1..(Len(f.a) + Len(f.b))) IN IF i <= Len(f.a) THEN [f EXCEPT !.a[i] = IF @ = 9 THEN 8 ELSE @ + 1] ELSE [f EXCEPT !.b[i - Len(f.a)] = IF @ = 9 THEN 8 ELSE @ + 1]
Mant(f) == Abs(f.a \o f.b, 10)
Exp(f) == (IF f.e = <<>> THEN 0 ELSE f.e[1]) - Len(f.b)
FMin(a, b) == IF a < b THEN a ELSE b
Scale(m, k) == FoldLeft(LAMBDA a, i: NScale(a, 10), m, [i \in 1..k |-> i])
FCmp(f, g) == LET e == FMin(Exp(f), Exp(g)) a == Scale(Mant(f), Exp(f) - e) b == Scale(Mant(g), Exp(g) - e) s == IF f.neg THEN -1 ELSE 1 u == IF g.neg THEN -1 ELSE 1 IN
  IF s # u THEN (IF a = <<>> /\ b = <<>> THEN 0 ELSE s) ELSE s * NCmp(a, b)
Pair(x) == [k |-> "flo", f |-> Flo(x), how |-> R(1..(4 + 0 * x)), o |-> Flo(x + 1)]
Other(r) == CASE r.how <= 2 -> Same(r.f) [] r.how = 3 -> Near(r.f) [] OTHER -> r.o
(* strings; a piece is <<kind, ..., times>> *)
Hx(c) == IF c < 10 THEN c ELSE c
Raw(x) == LET j == R(1..(NChars + 0 * x)) IN <<"raw", j>>
Ends4 == {<<0, 0, 0, 1>>, <<0, 0, 7, 15>>, <<0, 0, 8, 0>>, <<0, 7, 15, 15>>, <<0, 8, 0, 0>>, <<13, 7, 15, 15>>, <<14, 0, 0, 0>>, <<15, 15, 15, 15>>}     \* where the encodings change
Piece2(x) == LET k == R(1..(9 + 0 * x)) IN CASE k <= 3 -> Raw(x) [] k = 4 -> <<"esc", R({"n", "b", "f", "r", "t"})>>
  [] k = 5 -> LET d == IF R(1..(3 + 0 * x)) = 1 THEN R(Ends4) ELSE HexDigits(x, 4) IN <<"u", IF (d[1] = 13 /\ d # <<13, 7, 15, 15>>) \/ d = <<0, 0, 0, 0>> THEN [d EXCEPT ![1] = 3] ELSE d>>
  [] k = 6 -> LET d == IF R(1..(3 + 0 * x)) = 1 THEN R(Ends4) ELSE HexDigits(x, R(1..4)) IN <<"U", IF (Len(d) = 4 /\ d[1] = 13 /\ d # <<13, 7, 15, 15>>) \/ (\A i \in 1..Len(d): d[i] = 0) THEN [d EXCEPT ![1] = 3] ELSE d>>
  [] k = 7 -> <<"U", IF R(1..(4 + 0 * x)) = 1 THEN R({<<1, 0, 0, 0, 0>>, <<15, 15, 15, 15, 15>>, <<1, 0, 15, 15, 15, 15>>, <<1, 0, 0, 0, 0, 0>>}) ELSE <<R(1..15)>> \o HexDigits(x, 4)>> [] k = 8 -> <<"U", <<1, 0>> \o HexDigits(x, 4)>> [] OTHER -> <<"quoted", R(1..NChars)>>
Point(p) == CASE p[1] = "raw" -> Codes[p[2]] [] p[1] = "quoted" -> Codes[p[2]] [] p[1] = "esc" -> (CASE p[2] = "n" -> 10 [] p[2] = "b" -> 8 [] p[2] = "f" -> 12 [] p[2] = "r" -> 13 [] p[2] = "t" -> 9)
  [] OTHER -> FoldLeft(LAMBDA a, d: 16 * a + d, 0, p[2])
\* how a raw character may be written: a quote is escaped or doubled
Fits(p, q) == p[1] # "raw" \/ (Codes[p[2]] # (IF q = 2 THEN Quote2 ELSE Quote1) /\ (q = 1 \/ Codes[p[2]] # Back))
\* a backslash before one of the letters of the escapes means something else
Known == {110, 98, 102, 114, 116, 117, 85}
Write(p, q) == IF p[1] = "quoted" THEN (IF q = 2 THEN IF Codes[p[2]] \in Known THEN <<"raw", p[2]>> ELSE <<"back", p[2]>> ELSE IF Codes[p[2]] = Quote1 THEN <<"twice", p[2]>> ELSE <<"raw", p[2]>>)
  ELSE IF Fits(p, q) THEN p ELSE IF q = 2 THEN <<"back", p[2]>> ELSE <<"twice", p[2]>>
Lens == {0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 255, 256, 257, MaxLen}
Quoted(x) == LET q == R({1, 2, 2 + 0 * x}) k == R({0, 1, 2, 3, 4, 6, 9}) IN
  [k |-> "str", q |-> q, ps |-> List(k, LAMBDA i: IF q = 2 THEN Piece2(x + i) ELSE IF R(1..5) = 1 THEN <<"quoted", R(1..(NChars + 0 * i))>> ELSE Raw(x + i)),
   pad |-> IF R({0, 0, 1}) = 1 THEN R(Lens) ELSE 0, ch |-> R(1..NChars), at |-> R(0..9)]
Str(r) == LET w == Write(<<"raw", r.ch>>, r.q) k == Len(r.ps) at == FMin(r.at, k) IN
  [k |-> "str", q |-> r.q, t |-> [i \in 1..at |-> Write(r.ps[i], r.q)] \o [i \in 1..r.pad |-> w] \o [i \in 1..(k - at) |-> Write(r.ps[at + i], r.q)],
   v |-> [i \in 1..at |-> Point(r.ps[i])] \o [i \in 1..r.pad |-> Codes[r.ch]] \o [i \in 1..(k - at) |-> Point(r.ps[at + i])]]
IntLit(r, base) == LET v == Abs(r.t, base) IN [k |-> r.k, t |-> r.t, neg |-> r.neg, up |-> IF r.k = "hex" THEN r.up ELSE <<>>, int |-> NCmp(v, Largest) <= 0, v |-> NShow(v)]
Draw(x) == LET k == R(1..(10 + 0 * x)) IN CASE k = 1 -> Dec(x) [] k = 2 -> Edge(x) [] k = 3 -> Hex(x) [] k \in {4, 5} -> Pair(x) [] k = 6 -> One(x) [] OTHER -> Quoted(x)
Done(r) == CASE r.k = "dec" -> IntLit(r, 10) [] r.k = "hex" -> IntLit(r, 16) [] r.k = "str" -> Str(r)
  [] r.k = "flo" -> IF "g" \in DOMAIN r THEN [k |-> "flo", f |-> r.f, g |-> r.g, c |-> FCmp(r.f, r.g)] ELSE r
Init == n = 0 /\ ph = 0 /\ raw = <<>> /\ rec = <<>>
\* what is written is drawn first, what it denotes follows from that
Next == \/ ph = 0 /\ n < Depth /\ ph' = 1 /\ raw' = <<Draw(n)>> /\ rec' = <<>> /\ n' = n
        \/ ph = 1 /\ ph' = 2 /\ raw' = (IF raw[1].k = "flo" THEN <<[k |-> "flo", f |-> raw[1].f, g |-> Other(raw[1])]>> ELSE raw) /\ UNCHANGED <<n, rec>>
        \/ ph = 2 /\ ph' = 0 /\ rec' = <<Done(raw[1])>> /\ n' = n + 1 /\ raw' = <<>>
Spec == Init /\ [][Next]_vars
\* the same number compares equal both ways, and order is antisymmetric
Order == (rec # <<>> /\ rec[1].k = "flo") => FCmp(rec[1].g, rec[1].f) = -rec[1].c
Emit == rec # <<>> => PrintT(<<"@P", ToJson(rec[1])>>)
=============================================================================
