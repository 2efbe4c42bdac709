--------------------------------- MODULE Syn ----------------------------------
(* Texts of programs with one token taken away, put in or doubled.  A text whose delimiters do not match is no program; a change
   inside the contents of a string or a comment leaves a program, which prints what its strings then say.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Progs,    \* sequences of kinds of statements
          Ins,      \* texts put in
          Mode, Len0
VARIABLES kinds, text, how, n
vars == <<kinds, text, how, n>>
C(s) == <<"code", s>>      \* a token on its own
T(s) == <<"text", s>>      \* a piece of the contents of a string or a comment
Code(q) == [i \in 1..Len(q) |-> C(q[i])]
Quoted(q) == <<C("\"")>> \o [i \in 1..Len(q) |-> T(q[i])] \o <<C("\"")>>
NL == <<C("\n")>>
Words == <<"a", "(", "b", ")", ".", "#", ":", "[", " ", "]">>
W(i) == LET k == (i % 7) + 1 IN SubSeq(Words, k, k + (i % 4))
(* statement i of a program *)
Stmt(k, i) ==
  CASE k = "str" -> Quoted(W(i)) \o Code(<<"print">>) \o NL
    [] k = "list" -> Code(<<"(", "1", ",", "2", ",", "(", "3", ",", "4", ")", ")", "length", "print">>) \o NL
    [] k = "if" -> Code(<<"if", "(", "1", ")", ":">>) \o Quoted(W(i + 1)) \o Code(<<"print", ".">>) \o NL
    [] k = "else" -> Code(<<"if", "(", "nil", ")", ":", "7", "print", ".", "else", ":">>) \o Quoted(W(i + 2)) \o Code(<<"print", ".">>) \o NL
    [] k = "times" -> Code(<<"2", "times", ":">>) \o NL \o Quoted(W(i + 3)) \o Code(<<"print">>) \o NL \o Code(<<".">>) \o NL
    [] k = "fn" -> Code(<<"f", "=", "(", "x", ")", ":", "x", "+", "1", ".">>) \o NL \o Code(<<"f", "(", "3", ")", "print">>) \o NL
    [] k = "table" -> Code(<<"t", "=", "(">>) \o Quoted(W(i + 4)) \o Code(<<"=", "4", ",", "5", "=", "6", ")">>) \o NL \o Code(<<"t", "length", "print">>) \o NL
    [] k = "class" -> Code(<<"C", "=", "class", ":", "/x", "=", "8", ".">>) \o NL \o Code(<<"C", "(", ")", "/x", "print">>) \o NL
    [] OTHER -> <<C("#"), T("x")>> \o [j \in 1..Len(W(i + 5)) |-> T(W(i + 5)[j])] \o NL
Program(ks) == FlattenSeq([i \in 1..Len(ks) |-> Stmt(ks[i], i)])
(* how far a text has been read: in code, in a string, in a comment, and which delimiters are open *)
Open(d) == d \in {"(", "[", "{", ":"}
Pair(d) == CASE d = ")" -> "(" [] d = "]" -> "[" [] d = "}" -> "{" [] d = "." -> ":"
(* "@" and hexadecimal digits stand for bytes: BadBytes are no UTF-8 anywhere, GoodBytes are characters *)
BadBytes == {"@ff", "@c3", "@80", "@e282", "@f09f98"}
GoodBytes == {"@c3a9", "@e282ac", "@f09f9880"}
BadEscapes == {"\\U{d800}", "\\udfff", "\\U{110000}"}
Read(s, t) ==
  IF t \in BadBytes \/ (t \in BadEscapes /\ s.m = "string") THEN [s EXCEPT !.bad = TRUE]
  ELSE IF s.m = "string" THEN (IF t = "\"" THEN [s EXCEPT !.m = "code"] ELSE s)
  ELSE IF s.m = "comment" THEN (IF t = "\n" THEN [s EXCEPT !.m = "code"] ELSE s)
  ELSE IF t = "\"" THEN [s EXCEPT !.m = "string"]
  ELSE IF t = "#" THEN [s EXCEPT !.m = "comment"]
  ELSE IF Open(t) THEN [s EXCEPT !.st = Append(@, t)]
  ELSE IF t \in {")", "]", "}", "."} THEN (IF s.st # <<>> /\ s.st[Len(s.st)] = Pair(t) THEN [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)] ELSE [s EXCEPT !.bad = TRUE])
  ELSE s
After(q) == FoldLeft(LAMBDA s, t: Read(s, t[2]), [m |-> "code", st |-> <<>>, bad |-> FALSE], q)
Malformed(q) == LET s == After(q) IN s.bad \/ s.m = "string" \/ s.st # <<>>
(* what the strings of the text say, in order *)
RECURSIVE Strings(_, _, _)
Strings(q, i, cur) == IF i > Len(q) THEN <<>> ELSE
  LET m == After(SubSeq(q, 1, i - 1)).m IN
  IF m = "string" THEN (IF q[i][2] = "\"" THEN <<cur>> \o Strings(q, i + 1, <<>>) ELSE Strings(q, i + 1, Append(cur, q[i][2]))) ELSE Strings(q, i + 1, cur)
RECURSIVE Says(_, _, _)
Says(ks, i, ss) == IF i > Len(ks) THEN <<>> ELSE
  CASE ks[i] \in {"str", "if", "else"} -> ss[1] \o Says(ks, i + 1, Tail(ss))
    [] ks[i] = "times" -> ss[1] \o ss[1] \o Says(ks, i + 1, Tail(ss))
    [] ks[i] = "table" -> <<"2">> \o Says(ks, i + 1, Tail(ss))
    [] ks[i] = "list" -> <<"3">> \o Says(ks, i + 1, ss)
    [] ks[i] = "fn" -> <<"4">> \o Says(ks, i + 1, ss)
    [] ks[i] = "class" -> <<"8">> \o Says(ks, i + 1, ss)
    [] OTHER -> Says(ks, i + 1, ss)
(* the contents of strings and comments may change: the text stays a program *)
Harmless(i, t) == LET m == After(SubSeq(text, 1, i - 1)).m IN (m = "string" /\ t # "\"") \/ (m = "comment" /\ t # "\n")
Kind(q, ok) == IF Malformed(q) THEN "bad" ELSE IF ok THEN "ok" ELSE "open"
Put(i, t) == LET ok == Harmless(i, t) q == InsertAt(text, i, IF ok THEN T(t) ELSE C(t)) IN text' = q /\ how' = Kind(q, ok)
Take(i) == LET q == RemoveAt(text, i) IN text' = q /\ how' = Kind(q, Harmless(i, text[i][2]))
Cut(i) == LET q == SubSeq(text, 1, i) IN text' = q /\ how' = Kind(q, FALSE)
Init == \E ks \in IF Mode = "bfs" THEN Progs ELSE {<<>>}: kinds = ks /\ text = Program(ks) /\ how = "ok" /\ n = 0
All == {"str", "list", "if", "else", "times", "fn", "table", "class", "note"}
Next == /\ n' = n + 1
  /\ IF Mode = "bfs" THEN n = 0 /\ UNCHANGED kinds /\
       ((\E i \in 1..(Len(text) + 1): \E t \in Ins: Put(i, t)) \/ (\E i \in 1..Len(text): Take(i)) \/ (\E i \in 1..(Len(text) - 1): Cut(i)))
     ELSE IF n < Len0 THEN \E k \in {RandomElement(IF n > 999 THEN {} ELSE All)}: kinds' = Append(kinds, k) /\ text' = Program(kinds') /\ how' = "ok"
     ELSE n = Len0 /\ UNCHANGED kinds /\ \E x \in {RandomElement(1..(4 + 0 * n))}: \E i \in {RandomElement(1..Len(text))}: \E t \in {RandomElement(IF n > 999 THEN {} ELSE Ins)}:
            CASE x = 1 -> Take(i) [] x = 2 -> Cut(i) [] OTHER -> Put(i, t)
Spec == Init /\ [][Next]_vars
Balanced == n = 0 => ~Malformed(text)
Texts(q) == \A i \in 1..Len(q): q[i][1] = "text" <=> (LET m == After(SubSeq(q, 1, i - 1)).m IN (m = "string" /\ q[i][2] # "\"") \/ (m = "comment" /\ q[i][2] # "\n"))
(* the tokens of the contents are exactly what is read as such *)
Marked == how = "ok" => Texts(text)
Emit == how # "open" /\ (n = 1 \/ Mode # "bfs" \/ n = 0) /\ (Mode = "bfs" \/ n > Len0) =>
  PrintT(<<"@P", ToJson([q |-> text, how |-> how, out |-> IF how = "ok" THEN Says(kinds, 1, Strings(text, 1, <<>>)) ELSE <<>>])>>)
===============================================================================
