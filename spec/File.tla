--------------------------------- MODULE File ---------------------------------
(* Files as byte sequences with positions: unbuffered File objects and buffered streams.
   inode: contents; dir: name -> inode or 0; hs: handles; in: what is left of standard input.
   A stream keeps what it wrote to itself until it is flushed, repositioned or closed, so a history that looks at a
   file through another handle before that, or that reads and writes a stream with nothing between, is not made. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, Names, Depth, MaxH, Strs, Long, Kinds, Stdin, Reads, Offs
VARIABLES inode, dir, hs, in, hist, n
vars == <<inode, dir, hs, in, hist, n>>
Modes == {"r", "r+", "w", "w+", "a", "a+"}
Rd(m) == m \notin {"w", "a"}
Wr(m) == m # "r"
Ap(m) == m \in {"a", "a+"}
Creates(m) == m \notin {"r", "r+"}
Ok == <<"ok">> Err == <<"err">> Nil == <<"nil">> True == <<"true">>
Num(k) == <<"num", k>>
Bytes(s) == <<"bytes", s>>
Min2(a, b) == IF a < b THEN a ELSE b
Zeros(k) == [i \in 1..k |-> 0]
\* contents d with s put at position p
Put(d, p, s) == IF s = <<>> THEN d ELSE LET e == IF p > Len(d) THEN d \o Zeros(p - Len(d)) ELSE d IN
  SubSeq(e, 1, p) \o s \o SubSeq(e, p + Len(s) + 1, Len(e))
Get(d, p, k) == SubSeq(d, p + 1, Min2(p + k, Len(d)))
(* a line: up to and with the first newline among the next 1023 bytes *)
Line(s) == LET t == SubSeq(s, 1, Min2(1023, Len(s))) IN
  IF \E i \in 1..Len(t): t[i] = 10 THEN SubSeq(t, 1, CHOOSE i \in 1..Len(t): t[i] = 10 /\ \A j \in 1..(i - 1): t[j] # 10) ELSE t
Open(h) == hs[h].open
B(h) == hs[h].k = "B"
Others(h) == {i \in 1..Len(hs): i # h /\ hs[i].open /\ hs[i].ino = hs[h].ino}
Users(ino) == {i \in 1..Len(hs): hs[i].open /\ hs[i].ino = ino}
Dirty(ino) == \E i \in Users(ino): hs[i].k = "B" /\ hs[i].last = "w"
Stream(ino) == \E i \in Users(ino): hs[i].k = "B"
(* when a handle may be opened, those of X having been closed *)
MayOpenBut(X, k, ino, m) == LET U == Users(ino) \ X S == \E i \in U: hs[i].k = "B" IN ino = 0 \/ (/\ ~\E i \in U: hs[i].k = "B" /\ hs[i].last = "w"
  /\ (Wr(m) => (~S /\ (k = "B" => U = {})))
  /\ (k = "B" => \A i \in U: hs[i].mode = "r"))
MayOpen(k, ino, m) == MayOpenBut({}, k, ino, m)
Log(op, r) == hist' = Append(hist, <<op, r>>)
Handle(k, nm, ino, m) == [k |-> k, name |-> nm, ino |-> ino, mode |-> m, pos |-> 0, open |-> TRUE, last |-> "", eof |-> FALSE]
OpenF(k, nm, m) == LET ino == dir[nm] IN
  /\ MayOpen(k, ino, m) /\ Len(hs) < MaxH /\ UNCHANGED in
  /\ IF ino = 0 /\ ~Creates(m)
       THEN Log(<<"open", k, nm, m, 0>>, Err) /\ UNCHANGED <<inode, dir, hs>>
       ELSE LET j == IF ino = 0 THEN Len(inode) + 1 ELSE ino IN
            /\ inode' = IF ino = 0 THEN Append(inode, <<>>) ELSE IF m \in {"w", "w+"} THEN [inode EXCEPT ![j] = <<>>] ELSE inode
            /\ dir' = [dir EXCEPT ![nm] = j] /\ hs' = Append(hs, Handle(k, nm, j, m)) /\ Log(<<"open", k, nm, m, Len(hs) + 1>>, Ok)
BadMode(nm) == Log(<<"open", "F", nm, "q", 0>>, Nil) /\ UNCHANGED <<inode, dir, hs, in>>
Tmp == /\ Len(hs) < MaxH /\ inode' = Append(inode, <<>>) /\ hs' = Append(hs, Handle("B", "", Len(inode) + 1, "w+"))
       /\ Log(<<"tmp", Len(hs) + 1>>, Ok) /\ UNCHANGED <<dir, in>>
Same == UNCHANGED <<dir, in>>
(* what a written value puts into the file *)
Raw(v) == CASE v[1] \in {"str", "byt"} -> v[2] [] v[1] = "dbl" -> v[3] [] v[1] = "int" -> [i \in 1..8 |-> IF v[2] < 0 THEN ((v[2] \div (256 ^ Min2(i - 1, 3))) + (IF i > 4 THEN (0 - 1) - (v[2] \div (256 ^ 3)) ELSE 0)) % 256 ELSE IF i > 4 THEN 0 ELSE (v[2] \div (256 ^ (i - 1))) % 256]
  [] v[1] = "bool" -> <<IF v[2] THEN 1 ELSE 0>> [] OTHER -> <<>>
DecDigits(k) == LET RECURSIVE D(_) D(x) == IF x < 10 THEN <<48 + x>> ELSE D(x \div 10) \o <<48 + (x % 10)>> IN IF k < 0 THEN <<45>> \o D(-k) ELSE D(k)
Shown(v) == CASE v[1] \in {"str", "byt", "dbl"} -> v[2] [] v[1] = "int" -> DecDigits(v[2]) [] v[1] = "bool" -> (IF v[2] THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) [] OTHER -> <<110, 105, 108>>
At(h) == IF Ap(hs[h].mode) THEN Len(inode[hs[h].ino]) ELSE hs[h].pos
Written(h, s, dirty) == /\ inode' = [inode EXCEPT ![hs[h].ino] = Put(@, At(h), s)]
  /\ hs' = [hs EXCEPT ![h] = [@ EXCEPT !.pos = IF s = <<>> THEN @ ELSE At(h) + Len(s), !.last = IF dirty THEN "w" ELSE @]]
(* unbuffered files *)
FWrite(h, v, print) == LET s == IF print THEN Shown(v) ELSE Raw(v) IN
  /\ ~Stream(hs[h].ino) \/ ~Open(h) \/ ~Wr(hs[h].mode)
  /\ Same /\ IF v = <<"nil">> /\ ~print THEN Log(<<"write", h, v, print>>, Nil) /\ UNCHANGED <<inode, hs>>
     ELSE IF ~Open(h) \/ ~Wr(hs[h].mode) THEN Log(<<"write", h, v, print>>, Err) /\ UNCHANGED <<inode, hs>>
     ELSE Written(h, s, FALSE) /\ Log(<<"write", h, v, print>>, IF print THEN Bytes(<<>>) ELSE Num(Len(s)))
FRead(h, k) == /\ ~Dirty(hs[h].ino) \/ ~Open(h)
  /\ Same /\ UNCHANGED inode /\ LET s == Get(inode[hs[h].ino], hs[h].pos, k) IN
     IF ~Open(h) \/ ~Rd(hs[h].mode) THEN Log(<<"read", h, k>>, Err) /\ UNCHANGED hs
     ELSE Log(<<"read", h, k>>, IF s = <<>> THEN Nil ELSE Bytes(s)) /\ hs' = [hs EXCEPT ![h].pos = @ + Len(s)]
Close(h) == /\ Same /\ UNCHANGED inode /\ hs' = [hs EXCEPT ![h] = [@ EXCEPT !.open = FALSE, !.last = ""]]
            /\ (hs[h].k = "B" => Open(h)) /\ Log(<<"close", h>>, IF hs[h].k = "F" THEN Nil ELSE Num(0))
String(h) == Same /\ UNCHANGED <<inode, hs>> /\ Log(<<"string", h>>, IF Open(h) THEN <<"name", hs[h].k, hs[h].name>> ELSE <<"closed", hs[h].k>>)
(* the stream of g is closed and opened anew, as h's, which loses what it had *)
Reopen(h, g, nm, m) == LET ino == dir[nm] g0 == [hs EXCEPT ![g] = [@ EXCEPT !.open = FALSE, !.last = ""]] IN
  /\ B(h) /\ B(g) /\ UNCHANGED in
  /\ IF ~Open(g) THEN Log(<<"reopen", h, g, nm, m>>, Err) /\ UNCHANGED <<inode, dir, hs>>
     ELSE IF ino = 0 /\ ~Creates(m) THEN Log(<<"reopen", h, g, nm, m>>, Err) /\ hs' = g0 /\ UNCHANGED <<inode, dir>>
     ELSE LET j == IF ino = 0 THEN Len(inode) + 1 ELSE ino IN
       /\ MayOpenBut({g}, "B", ino, m)
       /\ inode' = IF ino = 0 THEN Append(inode, <<>>) ELSE IF m \in {"w", "w+"} THEN [inode EXCEPT ![j] = <<>>] ELSE inode
       /\ dir' = [dir EXCEPT ![nm] = j] /\ hs' = [g0 EXCEPT ![h] = Handle("B", nm, j, m)] /\ Log(<<"reopen", h, g, nm, m>>, Ok)
(* what a read gives, written elsewhere *)
Copy(h, g, k) ==
  LET s == Get(inode[hs[h].ino], hs[h].pos, k) IN
  /\ h # g /\ ~B(h) /\ Open(h) /\ Rd(hs[h].mode) /\ ~Dirty(hs[h].ino) /\ s # <<>>
  /\ Open(g) /\ Wr(hs[g].mode) /\ IF B(g) THEN (hs[g].last # "r" \/ hs[g].eof) /\ Others(g) = {} ELSE ~Stream(hs[g].ino)
  /\ Same /\ inode' = [inode EXCEPT ![hs[g].ino] = Put(@, At(g), s)]
  /\ hs' = [hs EXCEPT ![h].pos = @ + Len(s), ![g] = [@ EXCEPT !.pos = At(g) + Len(s), !.last = IF B(g) THEN "w" ELSE @]]
  /\ Log(<<"copy", h, g, k>>, Num(IF B(g) THEN 1 ELSE Len(s)))
(* streams; reading needs a stream not just written, writing one not just read (unless at its end) *)
MayRead(h) == Open(h) /\ hs[h].last # "w"
MayWrite(h) == Open(h) /\ (hs[h].last # "r" \/ hs[h].eof \/ ~Wr(hs[h].mode)) /\ Others(h) = {}
Rest(h) == LET d == inode[hs[h].ino] IN SubSeq(d, hs[h].pos + 1, Len(d))
Took(h, k, eof) == /\ hs' = [hs EXCEPT ![h] = [@ EXCEPT !.pos = @ + k, !.last = "r", !.eof = @ \/ eof]] /\ UNCHANGED inode /\ Same
Getc(h) == MayRead(h) /\ IF ~Rd(hs[h].mode) THEN Log(<<"getc", h>>, Num(-1)) /\ UNCHANGED <<inode, hs>> /\ Same
  ELSE IF Rest(h) = <<>> THEN Log(<<"getc", h>>, Num(-1)) /\ Took(h, 0, TRUE) ELSE Log(<<"getc", h>>, Num(Rest(h)[1])) /\ Took(h, 1, FALSE)
Gets(h) == MayRead(h) /\ (\A i \in 1..Len(Rest(h)): Rest(h)[i] # 0) /\ LET l == Line(Rest(h)) IN
  IF ~Rd(hs[h].mode) THEN Log(<<"gets", h>>, Nil) /\ UNCHANGED <<inode, hs>> /\ Same
  ELSE Log(<<"gets", h>>, IF l = <<>> THEN Nil ELSE Bytes(l)) /\ Took(h, Len(l), l = <<>> \/ (Last(l) # 10 /\ Len(l) < 1023))
ReadN(h, k, m) == MayRead(h) /\ LET s == Get(inode[hs[h].ino], hs[h].pos, k * m) full == Len(s) = k * m IN
  IF ~Rd(hs[h].mode) THEN Log(<<"fread", h, k, m, <<>>>>, Err) /\ UNCHANGED <<inode, hs>> /\ Same
  ELSE Log(<<"fread", h, k, m, s>>, IF full THEN Num(m) ELSE Err) /\ Took(h, Len(s), ~full)
Puts(h, s, how) == MayWrite(h) /\ (how \in {"write", "writeb"} \/ ~Wr(hs[h].mode) => s # <<>>) /\ Same /\ LET items == IF how = "putc" THEN s[1] ELSE 1 IN
  IF ~Wr(hs[h].mode) THEN Log(<<how, h, s>>, IF how \in {"write", "writeb"} THEN Err ELSE Num(-1)) /\ UNCHANGED <<inode, hs>>
  ELSE Written(h, s, TRUE) /\ Log(<<how, h, s>>, IF how = "puts" THEN Ok ELSE Num(items))
Rnd(T) == RandomElement(T)
\* k items of m bytes
WriteN(h, s, m, k) == m * k <= Len(s) /\ MayWrite(h) /\ Wr(hs[h].mode) /\ Same /\ Written(h, SubSeq(s, 1, m * k), TRUE) /\ Log(<<"writen", h, s, m, k>>, Num(k))
\* more than the buffer holds: refused, and nothing happens
Over(h) == Open(h) /\ Same /\ UNCHANGED <<inode, hs>> /\ \E how \in {Rnd({"fread", "write"})}, q \in {Rnd({<<3, 2, 2>>, <<0, 1, 1>>, <<4, 5, 1>>, <<5, 3, 2>>, <<7, 1, 8>>, <<7, 4, 5>>})}: Log(<<"over", h, how, q[1], q[2], q[3]>>, Err)
Flush(h) == Open(h) /\ Same /\ UNCHANGED inode /\ hs' = [hs EXCEPT ![h].last = IF @ = "w" THEN "" ELSE @] /\ Log(<<"flush", h>>, True)
Seek(h, off, whence) == /\ Open(h) /\ Same /\ UNCHANGED inode
  /\ LET p == off + (CASE whence = 0 -> 0 [] whence = 1 -> hs[h].pos [] OTHER -> Len(inode[hs[h].ino])) IN
     IF p < 0 THEN whence # 1 /\ Log(<<"seek", h, off, whence>>, Err) /\ hs' = [hs EXCEPT ![h].last = IF @ = "w" THEN "" ELSE @]
     ELSE (whence = 1 => ~Ap(hs[h].mode) \/ hs[h].last # "") /\ Log(<<"seek", h, off, whence>>, True) /\ hs' = [hs EXCEPT ![h] = [@ EXCEPT !.pos = p, !.last = "", !.eof = FALSE]]
\* the position of a stream that appends is known once something was written or read
Tell(h) == Open(h) /\ (~Ap(hs[h].mode) \/ hs[h].last # "") /\ Same /\ UNCHANGED <<inode, hs>> /\ Log(<<"tell", h>>, Num(hs[h].pos))
Eof(h) == Open(h) /\ Same /\ UNCHANGED <<inode, hs>> /\ Log(<<"eof", h>>, IF hs[h].eof THEN True ELSE <<"false">>)
Unlink(h) == /\ UNCHANGED <<inode, in>> /\ hs' = [hs EXCEPT ![h] = [@ EXCEPT !.open = FALSE, !.last = ""]]
  /\ IF hs[h].name = "" \/ (hs[h].name # "" /\ dir[hs[h].name] = 0) THEN Log(<<"unlink", h>>, Err) /\ UNCHANGED dir
     ELSE Log(<<"unlink", h>>, True) /\ dir' = [dir EXCEPT ![hs[h].name] = 0]
Pick(T) == IF Mode = "sim" THEN {RandomElement(T)} ELSE T
\* a closed stream refuses everything
Closed(h) == B(h) /\ ~Open(h) /\ UNCHANGED <<inode, dir, hs, in>> /\ \E o \in Pick({<<"getc", h>>, <<"gets", h>>, <<"flush", h>>, <<"tell", h>>, <<"eof", h>>, <<"close", h>>,
  <<"puts", h, <<120>>>>, <<"write", h, <<120>>>>, <<"putc", h, <<120>>>>, <<"fread", h, 1, 2, <<>>>>, <<"seek", h, 0, 0>>}): Log(o, Err)
ReadLine == Stdin # <<>> /\ LET l == Line(in) IN Log(<<"stdin">>, IF l = <<>> THEN Nil ELSE Bytes(l)) /\ in' = SubSeq(in, Len(l) + 1, Len(in)) /\ UNCHANGED <<inode, dir, hs>>

Vals == {<<"str", s>>: s \in Strs} \cup {<<"int", 7>>, <<"bool", TRUE>>, <<"nil">>} \cup (IF Mode = "sim" THEN {<<"byt", s>>: s \in Strs} \cup {<<"str", Long>>, <<"byt", Long>>, <<"dbl", <<50, 46, 53>>, <<0, 0, 0, 0, 0, 0, 4, 64>>>>, <<"dbl", <<45, 48, 46, 49, 50, 53>>, <<0, 0, 0, 0, 0, 0, 192, 191>>>>, <<"int", 0>>, <<"int", 123456789>>, <<"int", -1>>, <<"int", -300>>, <<"bool", FALSE>>} ELSE {})
Init == inode = <<>> /\ dir = [m \in Names |-> 0] /\ hs = <<>> /\ in = Stdin /\ hist = <<>> /\ n = 0
Step(c) ==
  \/ \E k \in Kinds, nm \in Names, m \in Modes: OpenF(k, nm, m)
  \/ "F" \in Kinds /\ \E nm \in Names: BadMode(nm)
  \/ "B" \in Kinds /\ Tmp
  \/ ReadLine
  \/ \E h \in 1..Len(hs): Close(h) \/ (Mode = "sim" /\ String(h)) \/ IF ~B(h)
       THEN \/ \E v \in Vals: FWrite(h, v, FALSE) \/ (Mode = "sim" /\ FWrite(h, v, TRUE))
            \/ \E k \in Reads: FRead(h, k)
       ELSE \/ Closed(h) \/ (\E nm \in Names, m \in Modes: Reopen(h, h, nm, m)) \/ Getc(h) \/ Gets(h) \/ Flush(h) \/ Tell(h) \/ Eof(h) \/ Unlink(h)
            \/ \E k \in Reads: ReadN(h, 1, k) \/ (Mode = "sim" /\ ReadN(h, k, 2))
            \/ \E s \in Strs: Puts(h, s, "write") \/ (Mode = "sim" /\ (Puts(h, s, "puts") \/ (s # <<>> /\ Puts(h, <<s[1]>>, "putc")) \/ WriteN(h, s, 1, 2) \/ WriteN(h, s, 2, 1) \/ WriteN(h, s, 1, 1)))
            \/ Mode = "sim" /\ Puts(h, Long, "puts")
            \/ Puts(h, <<98>>, "putc")
            \/ \E o \in Offs, w \in {0, 1, 2}: Seek(h, o, w)
\* random histories choose the handle first, so that opening and closing do not crowd out the rest
Rand(t) == LET c == Rnd(1..(12 + 0 * t)) IN
  \/ (c <= 2 \/ Len(hs) < 1) /\ \E k \in {Rnd(Kinds)}, nm \in {Rnd(Names)}, m \in {Rnd(Modes)}: OpenF(k, nm, m)
  \/ c = 3 /\ \E x \in {Rnd(1..6)}: (x = 1 /\ Tmp) \/ (x = 2 /\ \E nm \in Names: BadMode(nm)) \/ (x > 2 /\ ReadLine)
  \/ c = 4 /\ \E h \in 1..Len(hs): Close(h) \/ String(h)
  \/ c > 4 /\ Len(hs) > 0 /\ \E h \in {Rnd(1..Len(hs))}: \E x \in {Rnd(1..8)}: IF ~B(h)
       THEN IF x <= 4 THEN \E v \in {Rnd(Vals)}, p \in {Rnd({FALSE, FALSE, TRUE})}: FWrite(h, v, p) ELSE \E k \in {Rnd(Reads)}: IF x < 8 THEN FRead(h, k) ELSE \E g \in 1..Len(hs): Copy(h, g, k)
       ELSE CASE x = 8 /\ n % 3 = 0 -> \E g \in {Rnd(1..Len(hs)), h}, nm \in {Rnd(Names)}, m \in {Rnd(Modes)}: Reopen(h, g, nm, m)
         [] ~Open(h) -> Closed(h) \/ Unlink(h) [] x = 1 -> Getc(h) \/ Gets(h) [] x = 2 -> Flush(h) \/ Tell(h) \/ Eof(h) \/ Over(h) [] x = 3 /\ n > 6 -> \E y \in {Rnd(1..3)}: y = 1 /\ Unlink(h)
         [] x = 4 -> \E k \in {Rnd(Reads)}, m \in {1, 2}: ReadN(h, k, m)
         [] x = 5 -> \E o \in {Rnd(Offs)}, w \in {Rnd({0, 1, 2})}: Seek(h, o, w)
         [] x = 6 -> \E s \in {Rnd(Strs)}: WriteN(h, s, 1, 2) \/ WriteN(h, s, 2, 1) \/ WriteN(h, s, 1, 1)
         [] OTHER -> \E s \in {Rnd(Strs \cup {Long})}, how \in {Rnd({"write", "writeb", "puts", "putc"})}: IF how = "putc" THEN s # <<>> /\ Puts(h, <<s[1]>>, how) ELSE Puts(h, s, how)
Next == n < Depth /\ n' = n + 1 /\ IF Mode = "bfs" THEN Step(0) ELSE \E t \in 1..5: Rand(n + t)
Spec == Init /\ [][Next]_vars
(* no handle of a read-only mode changes a file; appending never changes what is there *)
Frame == [][\A i \in 1..Len(inode): inode'[i] = inode[i] \/ \E h \in 1..Len(hs'): hs'[h].ino = i /\ Wr(hs'[h].mode)]_vars
Safe == \A h \in 1..Len(hs): hs[h].eof => B(h)
Emit == (n = Depth) => PrintT(<<"@P", ToJson([h |-> hist, f |-> [m \in Names |-> IF dir[m] = 0 THEN <<"none">> ELSE <<"file", inode[dir[m]]>>]])>>)
=============================================================================
