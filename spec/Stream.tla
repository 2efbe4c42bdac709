------------------------------- MODULE Stream -------------------------------
(* Streams of the event loop: connections of clients to one listener (a local pipe, or TCP on the loopback), both ends in one
   program. What the program does is a plan: the operations each end makes in its callbacks. What the loop
   may do is a set of events; the model takes them in every order, and the events recorded
   from the real code are checked to be possible ones, each with the results its operations gave. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS NC, Lens, Fails,  \* connections, lengths of writes, attempts to connect to nothing
          NS, Grams,        \* sockets of datagrams (bound to ports of the loopback) and lengths of these
          Mode,             \* "plan": random plans; "all": those of Plans; "trace": the recorded ones of File
          Plans, File
VARIABLES plan, z, pos, ph
vars == <<plan, z, pos, ph>>
Sides == {"c", "s"}
Ends(p) == (1..Len(p.con)) \X Sides
Peer(e) == <<e[1], IF e[2] = "c" THEN "s" ELSE "c">>
PlanOf(p, e) == IF e[2] = "c" THEN p.con[e[1]].c ELSE p.con[e[1]].s
(* an end: open, reading, bytes written so far, bytes read, lengths of the writes not yet called back, how many writes were called back,
   shutdown (0 no, 1 asked, 2 called back), end of the stream seen, triggers used, timers that will start the reader again *)
E0 == [on |-> FALSE, rd |-> FALSE, sent |-> 0, got |-> 0, w |-> <<>>, wd |-> 0, shut |-> 0, eof |-> FALSE, th |-> 0, tm |-> 0]
(* a socket: lengths of the datagrams on their way to each other one with their numbers, datagrams sent to each and received in all, statuses still to be called back, how many were, receiving, timers that will start it again *)
Big == 65507                \* the longest datagram
Socks(p) == 1..Len(p.socks)
U0(p) == [way |-> [t \in Socks(p) |-> <<>>], sent |-> [t \in Socks(p) |-> 0], in |-> 0, st |-> <<>>, cbs |-> 0, rd |-> TRUE, tm |-> 0]
Z0(p) == [e |-> [e \in Ends(p) |-> E0], acc |-> 0, failed |-> {}, u |-> [s \in Socks(p) |-> U0(p)], begun |-> FALSE]
(* one operation in a callback of end e that read n bytes *)
Op(y, e, o, n) == LET x == y.e[e] IN
  CASE o[1] \in {"write", "echo"} -> LET k == IF o[1] = "echo" THEN n ELSE o[2] IN
         IF x.shut > 0 THEN [y |-> y, r |-> "err"] ELSE [y |-> [y EXCEPT !.e[e].sent = @ + k, !.e[e].w = Append(@, k)], r |-> "ok"]
    [] o[1] = "rewrite" -> IF x.shut > 0 \/ x.w # <<>> THEN [y |-> y, r |-> "err"]      \* the request of the last write again, when it is free
         ELSE [y |-> [y EXCEPT !.e[e].sent = @ + o[2], !.e[e].w = Append(@, o[2])], r |-> "ok"]
    [] o[1] = "shut" -> IF x.shut > 0 THEN [y |-> y, r |-> "err"] ELSE [y |-> [y EXCEPT !.e[e].shut = 1], r |-> "ok"]
    [] o[1] = "stop" -> [y |-> [y EXCEPT !.e[e].rd = FALSE, !.e[e].tm = @ + 1], r |-> "ok"]
Ops(y, e, os, n) == FoldLeft(LAMBDA a, o: LET x == Op(a.y, e, o, n) IN [y |-> x.y, rs |-> Append(a.rs, x.r)], [y |-> y, rs |-> <<>>], os)
(* datagrams <<to, length>> sent by socket s (to nobody: it stops receiving for a while): one that is too long is refused when its callback comes *)
Send(y, s, o) == IF o[1] = 0 THEN [y EXCEPT !.u[s].rd = FALSE, !.u[s].tm = @ + 1] ELSE LET big == o[2] > Big IN [y EXCEPT !.u[s].st = Append(@, IF big THEN -90 ELSE 0), !.u[s].sent[o[1]] = @ + 1, !.u[s].way[o[1]] = IF big THEN @ ELSE Append(@, <<y.u[s].sent[o[1]] + 1, o[2]>>)]
Sends(y, s, os) == [y |-> FoldLeft(LAMBDA a, o: Send(a, s, o), y, os), rs |-> [i \in 1..Len(os) |-> "ok"]]
(* the triggers that fire when got bytes were read: those in order from the next one on *)
Fired(p, x) == LET t == p.th F[k \in 0..Len(t)] == IF k < Len(t) /\ t[k + 1].at <= x.got THEN F[k + 1] ELSE k IN F[x.th]
(* events: <<kind, end, n, from>>: n bytes read (or a status), which are those of the stream from a place on *)
Ok(p, y, v) == LET e == v[2] IN
  CASE v[1] = "fail" -> e[1] \in 1..p.fails /\ e[1] \notin y.failed /\ v[3] < 0
    [] v[1] = "begin" -> ~y.begun /\ p.socks # <<>>
    [] v[1] = "gsent" -> y.begun /\ e[1] \in Socks(p) /\ y.u[e[1]].st # <<>> /\ v[3] = Head(y.u[e[1]].st) /\ v[4] = y.u[e[1]].cbs + 1
    [] v[1] = "gram" -> y.begun /\ e[1] \in Socks(p) /\ e[2] \in Socks(p) /\ y.u[e[1]].rd /\ LET w == y.u[e[2]].way[e[1]] IN w # <<>> /\ Head(w) = <<v[4], v[3]>>      \* whole, once, those of a socket in order
    [] v[1] = "resume" -> e[1] \in Socks(p) /\ y.u[e[1]].tm > 0
    [] ~(e \in Ends(p)) -> FALSE
    [] v[1] = "connected" -> e[2] = "c" /\ ~y.e[e].on /\ v[3] = 0
    [] v[1] = "accepted" -> e = <<y.acc + 1, "s">> /\ ~y.e[e].on /\ v[3] = 0
    [] v[1] = "read" -> y.e[e].on /\ y.e[e].rd /\ ~y.e[e].eof /\ v[3] >= 0 /\ v[4] = y.e[e].got /\ y.e[e].got + v[3] <= y.e[Peer(e)].sent
    [] v[1] = "eof" -> y.e[e].on /\ y.e[e].rd /\ ~y.e[e].eof /\ y.e[Peer(e)].shut > 0 /\ y.e[e].got = y.e[Peer(e)].sent
    [] v[1] = "wrote" -> y.e[e].w # <<>> /\ v[3] = 0 /\ v[4] = y.e[e].wd + 1        \* in the order of the writes
    [] v[1] = "shut" -> y.e[e].shut = 1 /\ y.e[e].w = <<>> /\ v[3] = 0              \* after all of them
    [] v[1] = "again" -> y.e[e].tm > 0
    [] OTHER -> FALSE
(* the state after it, and what the operations of its callback gave *)
After(p, y, v) == LET e == v[2] IN
  CASE v[1] = "fail" -> [y |-> [y EXCEPT !.failed = @ \cup {e[1]}], rs |-> <<>>]
    [] v[1] = "begin" -> [y |-> FoldLeft(LAMBDA a, s: Sends(a, s, p.socks[s].first).y, [y EXCEPT !.begun = TRUE], [s \in Socks(p) |-> s]), rs |-> <<>>]
    [] v[1] = "gsent" -> [y |-> [y EXCEPT !.u[e[1]].st = Tail(@), !.u[e[1]].cbs = @ + 1], rs |-> <<>>]
    [] v[1] = "resume" -> [y |-> [y EXCEPT !.u[e[1]].tm = @ - 1, !.u[e[1]].rd = TRUE], rs |-> <<>>]
    [] v[1] = "gram" -> LET q == p.socks[e[1]].on k == y.u[e[1]].in + 1 IN Sends([y EXCEPT !.u[e[2]].way[e[1]] = Tail(@), !.u[e[1]].in = k], e[1], IF k <= Len(q) THEN q[k] ELSE <<>>)
    [] v[1] \in {"connected", "accepted"} -> Ops([y EXCEPT !.e[e].on = TRUE, !.e[e].rd = TRUE, !.acc = IF v[1] = "accepted" THEN @ + 1 ELSE @], e, PlanOf(p, e).first, 0)
    [] v[1] = "read" -> IF v[3] = 0 THEN [y |-> y, rs |-> <<>>] ELSE
         LET a == [y EXCEPT !.e[e].got = @ + v[3]] q == PlanOf(p, e) f == Fired(q, a.e[e]) IN
         Ops([a EXCEPT !.e[e].th = f], e, (IF q.echo THEN << <<"echo">> >> ELSE <<>>) \o FoldLeft(LAMBDA s, k: s \o q.th[k].ops, <<>>, [k \in 1..(f - a.e[e].th) |-> a.e[e].th + k]), v[3])
    [] v[1] = "eof" -> Ops([y EXCEPT !.e[e].eof = TRUE, !.e[e].rd = FALSE], e, PlanOf(p, e).eof, 0)
    [] v[1] = "wrote" -> [y |-> [y EXCEPT !.e[e].w = Tail(@), !.e[e].wd = @ + 1], rs |-> <<>>]
    [] v[1] = "shut" -> [y |-> [y EXCEPT !.e[e].shut = 2], rs |-> <<>>]
    [] v[1] = "again" -> [y |-> [y EXCEPT !.e[e].tm = @ - 1, !.e[e].rd = TRUE], rs |-> <<>>]
Finished(p, y) == y.failed = 1..p.fails /\ y.begun = (p.socks # <<>>) /\ (\A s \in Socks(p): y.u[s].st = <<>> /\ y.u[s].tm = 0 /\ \A t \in Socks(p): y.u[s].way[t] = <<>>) /\ \A e \in Ends(p): y.e[e].on /\ y.e[e].eof /\ y.e[e].w = <<>> /\ y.e[e].shut = 2 /\ y.e[e].tm = 0

(* plans *)
R(T) == RandomElement(T)
Draw(k, O(_)) == FoldLeft(LAMBDA a, i: Append(a, O(i)), <<>>, [i \in 1..k |-> i])
Write(i) == <<"write", R(Lens \cup {0 * i})>>
AnOp(i) == LET k == R(1..(8 + 0 * i)) IN IF k <= 4 THEN Write(i) ELSE IF k <= 6 THEN <<"rewrite", R(Lens \cup {0 * i})>> ELSE <<"shut">>
Trigger(i) == [at |-> R({1 + 0 * i, 2, 50, 1000} \cup Lens), ops |-> Draw(R({1 + 0 * i, 2}), AnOp)]
Sorted(t) == SortSeq(t, LAMBDA a, b: a.at < b.at)
Side(x) == LET echo == x = "s" /\ R(1..3) = 1 IN
  [echo |-> echo, first |-> Draw(IF echo THEN 0 ELSE R(0..3), Write) \o (IF ~echo /\ R(1..4) = 1 THEN << <<"shut">>, Write(1) >> ELSE <<>>),
   th |-> Sorted(IF echo THEN <<>> ELSE Draw(R(0..3), Trigger)), eof |-> Draw(IF echo THEN 0 ELSE R(0..1), Write) \o << <<"shut">> >>]
(* at most one trigger of an end stops its reader *)
Stopping(s, at) == IF s.echo THEN s ELSE [s EXCEPT !.th = Sorted(Append(@, [at |-> at, ops |-> << <<"stop">> >>]))]
Conn(i) == LET c == Side("c") s == Side("s") IN [c |-> IF R(1..(3 + 0 * i)) = 1 THEN Stopping(c, R({1, 2, 60, 3000})) ELSE c, s |-> IF R(1..(3 + 0 * i)) = 1 THEN Stopping(s, R({1, 2, 60, 3000})) ELSE s]
\* at most one long datagram is on its way (the buffers of the system are limited), and one that is too long
Datagrams(x) == LET k == R(2..(NS + 0 * x)) G(i) == <<R(1..(k + 0 * i)), R(Grams \cup {0 * i})>> GP(i) == IF R(1..(6 + 0 * i)) = 1 THEN <<0, 0>> ELSE G(i) IN
  Draw(k, LAMBDA i: [first |-> Draw(R(0..(3 + 0 * i)), G) \o (IF i = 1 /\ R(1..3) = 1 THEN << <<R(1..k), R({Big, Big + 1})>> >> ELSE <<>>), on |-> Draw(R(0..(4 + 0 * i)), LAMBDA j: Draw(R(0..(2 + 0 * j)), GP))])
Plan(x) == [con |-> Draw(R((IF NS = 0 THEN 1 ELSE 0)..(NC + 0 * x)), Conn), fails |-> R(0..Fails), socks |-> IF NS = 0 THEN <<>> ELSE Datagrams(x)]

Traces == IF Mode = "trace" THEN ndJsonDeserialize(File) ELSE <<>>
Init == pos = 1 /\ ph = 0 /\ z = 0 /\ IF Mode = "trace" THEN \E t \in 1..Len(Traces): plan = t ELSE IF Mode = "all" THEN plan \in Plans ELSE plan = 0
Load == ph = 0 /\ ph' = 1 /\ pos' = pos /\ \E p \in {IF Mode = "plan" THEN Plan(pos) ELSE IF Mode = "trace" THEN Traces[plan].plan ELSE plan}:
          plan' = (IF Mode = "trace" THEN plan ELSE p) /\ z' = Z0(p)
Counts(y, e) == LET n == y.e[Peer(e)].sent - y.e[e].got IN IF Mode = "all" THEN 1..n ELSE {n, (n + 1) \div 2, 1} \cap (1..n)
Possible(y) == [k : {"connected", "accepted", "wrote", "shut", "again", "eof"}, e : Ends(plan)]
Status(k, y, e) == IF k = "eof" THEN -4095 ELSE 0
Events(y) == {<<p.k, p.e, Status(p.k, y, p.e), IF p.k = "wrote" THEN y.e[p.e].wd + 1 ELSE 0>>: p \in Possible(y)}
             \cup (IF plan.socks = <<>> THEN {} ELSE {<<"begin", <<0, 0>>, 0, 0>>} \cup {<<"resume", <<s, 0>>, 0, 0>>: s \in Socks(plan)} \cup {<<"gsent", <<s, 0>>, IF z.u[s].st = <<>> THEN 0 ELSE Head(z.u[s].st), z.u[s].cbs + 1>>: s \in Socks(plan)}
                   \cup UNION {{<<"gram", <<t, s>>, Head(z.u[s].way[t])[2], Head(z.u[s].way[t])[1]>>: t \in {t \in Socks(plan): z.u[s].way[t] # <<>>}}: s \in Socks(plan)})
             \cup {<<"fail", <<i, "c">>, -1, 0>>: i \in 1..plan.fails} \cup UNION {{<<"read", e, n, y.e[e].got>>: n \in Counts(y, e)}: e \in Ends(plan)}
Run == ph = 1 /\ Mode # "trace" /\ \E v \in {w \in Events(z): Ok(plan, z, w)}: z' = After(plan, z, v).y /\ UNCHANGED <<plan, pos, ph>>
(* a recorded run: every event possible, with the results it must have, and at its end nothing left to come *)
Norm(v) == <<v[1], <<v[2], v[3]>>, v[4], v[5]>>
Check == ph = 1 /\ Mode = "trace" /\ LET t == Traces[plan] IN
  IF pos > Len(t.log) THEN ph' = 2 /\ UNCHANGED <<plan, pos, z>> /\ (Finished(t.plan, z) \/ PrintT(<<"@P", ToJson([t |-> t.id, pos |-> pos, what |-> "unfinished"])>>))
  ELSE LET v == Norm(t.log[pos]) IN
    IF ~Ok(t.plan, z, v) THEN ph' = 3 /\ UNCHANGED <<plan, pos, z>> /\ PrintT(<<"@P", ToJson([t |-> t.id, pos |-> pos, what |-> "event"])>>)
    ELSE LET a == After(t.plan, z, v) IN
      IF a.rs # t.log[pos][6] THEN ph' = 3 /\ UNCHANGED <<plan, pos, z>> /\ PrintT(<<"@P", ToJson([t |-> t.id, pos |-> pos, what |-> "results"])>>)
      ELSE z' = a.y /\ pos' = pos + 1 /\ UNCHANGED <<plan, ph>>
Next == Load \/ Run \/ Check
Spec == Init /\ [][Next]_vars
Emit == ph = 1 /\ Mode = "plan" /\ Finished(plan, z) => PrintT(<<"@P", ToJson(plan)>>)
(* nothing arrives that was not sent, the end comes after everything, callbacks of writes and shutdowns come once *)
Sane == ph = 1 /\ Mode # "trace" => \A e \in Ends(plan): LET x == z.e[e] y == z.e[Peer(e)] IN
          x.got <= y.sent /\ (x.eof => x.got = y.sent /\ y.shut > 0) /\ (x.shut = 2 => x.w = <<>>) /\ x.th <= Len(PlanOf(plan, e).th) /\ FoldLeft(LAMBDA a, b: a + b, 0, x.w) <= x.sent
(* a plan that can finish finishes whatever the order of the events: with nothing possible left, it is finished *)
Done == ph = 1 /\ Mode = "all" => ({v \in Events(z): Ok(plan, z, v)} = {} => Finished(plan, z))
=============================================================================
