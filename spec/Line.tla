--------------------------------- MODULE Line ---------------------------------
(* The line editor: a line with a cursor, a history with a place in it, completions, and what the terminal shows.
   A text is a sequence of bytes (small numbers); the newest history entry is the line being edited. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Mode, \* "all": every key sequence over Alphabet, "random": long random sessions
  Alphabet, Depth, Cap, NStart
VARIABLES s, log, n
vars == <<s, log, n>>
SP == 3
CC == 4
\* byte numbers 1.. are a b space c x y z p 0xC3 0xA9 (see lines.py); completions of a line that ends in c
Compl(b) == IF b # <<>> /\ Len(b) < Cap - 8 /\ b[Len(b)] = CC THEN <<Append(b, 5), b \o <<6, 7>>>> ELSE IF b # <<>> /\ Len(b) < Cap - 8 /\ b[Len(b)] = 5 THEN <<<<1, SP, 2>>>> ELSE <<>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Cut(b, i, j) == SubSeq(b, 1, i) \o SubSeq(b, j + 1, Len(b))  \* without i+1..j
AddTo(h, t, max) == Append(IF Len(h) >= max THEN SubSeq(h, Len(h) - max + 2, Len(h)) ELSE h, t)
\* where the word before p begins
WordFrom(b, p) == LET skip == CHOOSE i \in 0..p: (\A j \in (i + 1)..p: b[j] = SP) /\ (i = 0 \/ b[i] # SP) IN CHOOSE i \in 0..skip: (\A j \in (i + 1)..skip: b[j] # SP) /\ (i = 0 \/ b[i] = SP)
\* going to entry idx + d of the history: the line is kept as the entry it came from
Go(t, d) == IF Len(t.h) <= 1 THEN t ELSE
  LET k == [t EXCEPT !.h[Len(t.h) - t.idx] = t.b] i == t.idx + d IN
  IF i < 0 \/ i >= Len(t.h) THEN k ELSE LET e == k.h[Len(k.h) - i] IN [k EXCEPT !.idx = i, !.b = e, !.p = Len(e)]
Insert(t, c) == IF Len(t.b) >= Cap THEN t ELSE [t EXCEPT !.b = SubSeq(t.b, 1, t.p) \o <<c>> \o SubSeq(t.b, t.p + 1, Len(t.b)), !.p = @ + 1]
Plain(t, k) == LET b == t.b p == t.p IN
  CASE k[1] = "ch" -> Insert(t, k[2])
    [] k[1] = "paste" -> LET m == Min2(k[3], Cap - Len(b)) IN [t EXCEPT !.b = SubSeq(b, 1, p) \o [i \in 1..m |-> k[2]] \o SubSeq(b, p + 1, Len(b)), !.p = p + m]
    [] k[1] = "left" -> [t EXCEPT !.p = Max2(0, p - 1)]
    [] k[1] = "right" -> [t EXCEPT !.p = Min2(Len(b), p + 1)]
    [] k[1] = "home" -> [t EXCEPT !.p = 0]
    [] k[1] = "end" -> [t EXCEPT !.p = Len(b)]
    [] k[1] = "bs" -> IF p = 0 THEN t ELSE [t EXCEPT !.b = Cut(b, p - 1, p), !.p = p - 1]
    [] k[1] = "del" -> IF p = Len(b) THEN t ELSE [t EXCEPT !.b = Cut(b, p, p + 1)]
    [] k[1] = "eof" -> IF b = <<>> THEN [t EXCEPT !.on = "off"] ELSE IF p = Len(b) THEN t ELSE [t EXCEPT !.b = Cut(b, p, p + 1)]
    [] k[1] = "swap" -> IF p = 0 \/ p = Len(b) THEN t ELSE [t EXCEPT !.b = [b EXCEPT ![p] = b[p + 1], ![p + 1] = b[p]], !.p = IF p = Len(b) - 1 THEN p ELSE p + 1]
    [] k[1] = "kill" -> [t EXCEPT !.b = SubSeq(b, 1, p)]
    [] k[1] = "clear" -> [t EXCEPT !.b = <<>>, !.p = 0]
    [] k[1] = "word" -> LET i == WordFrom(b, p) IN [t EXCEPT !.b = Cut(b, i, p), !.p = i]
    [] k[1] = "up" -> Go(t, 1)
    [] k[1] = "down" -> Go(t, -1)
    [] k[1] = "enter" -> [t EXCEPT !.on = "line"]
    [] k[1] = "int" -> [t EXCEPT !.on = "off"]
    [] OTHER -> t
\* completions: comp = 0, or the one shown (one past the last: the line itself)
Show(t) == IF t.comp > 0 /\ t.comp <= Len(Compl(t.b)) THEN LET e == Compl(t.b)[t.comp] IN [b |-> e, p |-> Len(e)] ELSE [b |-> t.b, p |-> t.p]
Key(t, k) ==
  IF t.comp > 0 THEN
    IF k[1] = "tab" THEN [t EXCEPT !.comp = IF @ > Len(Compl(t.b)) THEN 1 ELSE @ + 1]
    ELSE LET v == Show(t) u == IF k[1] \notin {"ch", "paste"} /\ k[Len(k)] = "esc" THEN [t EXCEPT !.comp = 0] ELSE [t EXCEPT !.b = v.b, !.p = v.p, !.comp = 0] IN Plain(u, k)
  ELSE IF k[1] = "tab" THEN [t EXCEPT !.comp = IF Compl(t.b) = <<>> THEN 0 ELSE 1]
  ELSE Plain(t, k)
\* the row of the terminal: a window of the line that has the cursor, and the column of the cursor
Screen(t) == LET v == Show(t) off == IF t.pl + v.p >= t.cols THEN Min2(v.p, t.pl + v.p - t.cols + 1) ELSE 0 IN
  <<SubSeq(v.b, off + 1, Min2(Len(v.b), off + Max2(0, t.cols - t.pl))), t.pl + v.p - off>>
Idle == [on |-> "idle", b |-> <<>>, p |-> 0, h |-> <<>>, idx |-> 0, comp |-> 0, pl |-> 0, cols |-> 80, max |-> 100]
Starts == << [Idle EXCEPT !.h = <<<<1, SP, 2>>, <<CC, 5>>>>], [Idle EXCEPT !.h = <<<<1, 2>>>>, !.max = 2, !.cols = 8], [Idle EXCEPT !.h = <<<<2>>, <<1>>, <<>>>>, !.cols = 4], Idle >>
Begin(t, pl) == [t EXCEPT !.on = "edit", !.b = <<>>, !.p = 0, !.idx = 0, !.comp = 0, !.pl = pl, !.h = AddTo(@, <<>>, t.max)]
Log(e) == log' = Append(log, e)
Press(k, chunk) == LET u == Key(s, k) IN
  /\ s' = IF u.on = "edit" THEN u ELSE [u EXCEPT !.on = "idle", !.h = Front(@)]
  /\ Log(<<"key", k, chunk, Screen(u), IF u.on = "edit" THEN <<>> ELSE IF u.on = "line" THEN <<"line", u.b>> ELSE <<"nil">>>>)
Prompt(pl) == s' = Begin(s, pl) /\ Log(<<"prompt", pl, Screen(s')>>)
Add(t) == s' = [s EXCEPT !.h = AddTo(@, t, s.max)] /\ Log(<<"add", t, s'.h>>)
SetMax(m) == s' = [s EXCEPT !.max = m, !.h = IF Len(@) > m THEN SubSeq(@, Len(@) - m + 1, Len(@)) ELSE @] /\ Log(<<"max", m>>)
File == UNCHANGED s /\ Log(<<"file", s.h>>)
Reload == s' = [s EXCEPT !.h = FoldLeft(LAMBDA a, e: AddTo(a, e, s.max), s.h, s.h)] /\ Log(<<"reload">>)

Start(t) == <<"start", t.h, t.max, t.cols>>
InitAll == \E k \in 1..NStart, pl \in {0, 2}: s = Begin(Starts[k], pl) /\ log = <<Start(Starts[k]), <<"prompt", pl, Screen(s)>>>>
InitRnd == s = Idle /\ log = <<>>
Init == n = 0 /\ IF Mode = "all" THEN InitAll ELSE InitRnd
Rnd(T) == RandomElement(T)
Texts == {<<>>, <<1>>, <<1, SP, 2>>, <<CC>>, <<2, SP, SP, 1, CC>>, <<9, 10>>}
RKey(x) == LET k == Rnd(1..(34 + 0 * x)) IN
  CASE k <= 11 -> <<"ch", Rnd(1..10)>> [] k = 12 -> <<"ch", SP>> [] k = 13 -> <<"left", Rnd({"ctl", "esc"})>> [] k = 14 -> <<"right", Rnd({"ctl", "esc"})>> [] k = 15 -> <<"home", "ctl">> [] k = 16 -> <<"end", "ctl">>
    [] k = 17 -> <<"bs", Rnd({"ctl", "127"})>> [] k = 18 -> <<"del", "esc">> [] k = 19 -> <<"eof", "ctl">> [] k = 20 -> <<"swap", "ctl">> [] k = 21 -> <<Rnd({"kill", "clear"}), "ctl">> [] k = 22 -> <<"word", "ctl">>
    [] k \in {23, 24, 25, 26} -> <<"up", Rnd({"ctl", "esc"})>> [] k \in {27, 28} -> <<"down", Rnd({"ctl", "esc"})>> [] k = 29 -> <<"tab", "ctl">> [] k = 30 -> <<"nop", Rnd({"f5", "sdel", "khome", "pgup"}), "esc">>
    [] k = 31 -> <<"redraw", "ctl">> [] k = 32 -> IF Rnd(1..5) = 1 THEN <<"int", "ctl">> ELSE <<"end", "ctl">> [] k = 33 -> IF Rnd(1..12) = 1 THEN <<"paste", 8, Rnd({1000, 2500, 4094})>> ELSE <<"left", "ctl">> [] OTHER -> <<"enter", "ctl">>
StepAll == \E k \in Alphabet: s.on = "edit" /\ Press(k, 0)
StepRnd(x) ==
  IF log = <<>> THEN \E m \in {Rnd({2, 3, 5, 100})}, c \in {Rnd({80, 20, 8, 4})}, k \in {Rnd(0..3)}: \E h \in {[i \in 1..k |-> Rnd(Texts)]}: LET t == [Idle EXCEPT !.max = m, !.cols = c] u == [t EXCEPT !.h = FoldLeft(LAMBDA a, e: AddTo(a, e, m), <<>>, h)] IN s' = u /\ Log(<<"start", h, m, c>>)
  ELSE IF s.on = "idle" THEN \E k \in {Rnd(1..(12 + 0 * x))}:
    CASE k <= 7 -> Prompt(Rnd({0, 1, 3, 6}))
      [] k \in {8, 9, 10} -> \E t \in {IF log[Len(log)][1] = "key" /\ log[Len(log)][5][1] = "line" THEN log[Len(log)][5][2] ELSE Rnd(Texts)}: Add(t)
      [] k = 11 -> SetMax(Rnd({1, 2, 3, 5, 100}))
      [] OTHER -> IF Rnd(1..2) = 1 THEN File ELSE Reload
  ELSE \E k \in {RKey(x)}, c \in {Rnd(0..3)}: Press(k, c)
\* the editor of a program: the history file is read at the start, every line is added
StepApp(x) ==
  IF log = <<>> THEN \E k \in {Rnd(0..3)}: \E h \in {[i \in 1..k |-> Rnd(Texts)]}: s' = [Idle EXCEPT !.h = h] /\ Log(<<"start", h, 100, 80>>)
  ELSE IF s.on = "idle" THEN IF log[Len(log)][1] = "key" /\ log[Len(log)][5][1] = "line" THEN Add(log[Len(log)][5][2]) ELSE Prompt(3)
  ELSE \E k \in {RKey(x)}, c \in {Rnd(0..3)}: k[1] # "tab" /\ Press(k, c)
Next == n < Depth /\ n' = n + 1 /\ IF Mode = "all" THEN StepAll ELSE IF Mode = "app" THEN \E t \in 1..3: StepApp(n + t) ELSE StepRnd(n + 1)
Spec == Init /\ [][Next]_vars
Inside == s.p \in 0..Len(s.b) /\ Len(s.b) <= Cap /\ Len(s.h) <= s.max /\ (s.on = "edit" => s.idx \in 0..(Len(s.h) - 1))
\* the cursor is on the row and the row fits
OnScreen == s.on = "edit" /\ s.pl < s.cols => Screen(s)[2] < s.cols /\ Len(Screen(s)[1]) + s.pl <= s.cols
\* a key changes at most one entry of the history, and only the end of a line ends one
OneEntry == [][s.on = "edit" /\ s'.on = "edit" => Len(s'.h) = Len(s.h) /\ \A i, j \in 1..Len(s.h): s.h[i] # s'.h[i] /\ s.h[j] # s'.h[j] => i = j]_vars
Emit == (n = Depth \/ (Mode = "all" /\ s.on = "idle")) => PrintT(<<"@P", ToJson([l |-> log, h |-> s.h, e |-> s.on])>>)
=============================================================================
