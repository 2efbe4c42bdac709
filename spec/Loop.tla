--------------------------------- MODULE Loop ---------------------------------
(* The event loop: timers, idle, prepare, check and async handles, the operations of a program on
   them (between runs and inside callbacks), and the passes of a run over them.
   Time is a virtual clock: it moves when the loop waits and when a callback sleeps. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS NT, NW, NA,       \* timers; idle, prepare and check handles (of each kind); async handles
          Depth,            \* callbacks until every callback stops everything
          MainOps, Runs
VARIABLES s, pc, log, left
vars == <<s, pc, log, left>>
Kinds == {"idle", "prepare", "check"}
(* s: now (clock), lt (the time the loop goes by), timers, ready (expired in this pass), q (started idle.. handles, next first),
   lq (those still to run in this pass), wcb (what they call), ser (order of starts), ncb (callbacks made so far),
   pend (async handles sent to), wake, mode, fires, sleep (the loop may wait in a single pass), alive *)
Timer0 == [on |-> FALSE, due |-> 0, seq |-> 0, rep |-> 0, cb |-> 0]
S0 == [now |-> 0, lt |-> 0, t |-> [i \in 1..NT |-> Timer0], ready |-> <<>>, q |-> [k \in Kinds |-> <<>>], lq |-> <<>>,
       wcb |-> [k \in Kinds |-> [i \in 1..NW |-> 0]], ser |-> 0, ncb |-> 0, pend |-> [i \in 1..NA |-> FALSE], wake |-> FALSE,
       la |-> 0, mode |-> "", fires |-> 0, sleep |-> FALSE, alive |-> FALSE]
In(x, q) == \E i \in 1..Len(q): q[i] = x
Without(q, x) == SelectSeq(q, LAMBDA y: y # x)
Start(z, i, to, rep, cb) == [z EXCEPT !.t[i] = [on |-> TRUE, due |-> z.lt + to, seq |-> z.ser, rep |-> rep, cb |-> cb], !.ser = @ + 1, !.ready = Without(@, i)]
Stop(z, i) == [z EXCEPT !.t[i].on = FALSE, !.ready = Without(@, i)]
Again(z, i) == IF z.t[i].rep = 0 THEN z ELSE Start(Stop(z, i), i, z.t[i].rep, z.t[i].rep, z.t[i].cb)
Active(z, k, i) == In(i, z.q[k]) \/ (In(<<k, i>>, z.lq))
StopW(z, k, i) == [z EXCEPT !.q[k] = Without(@, i), !.lq = Without(@, <<k, i>>)]
StartW(z, k, i) == [z EXCEPT !.wcb[k][i] = z.ncb + 1, !.ncb = @ + 1, !.q[k] = IF Active(z, k, i) THEN @ ELSE <<i>> \o @]
(* one operation: the state after it and what it gives *)
Op(z, o) == CASE
     o[1] = "start" -> [z |-> [Start(z, o[2], o[3], o[4], z.ncb + 1) EXCEPT !.ncb = @ + 1], r |-> <<"ok">>]
  [] o[1] = "stop" -> [z |-> Stop(z, o[2]), r |-> <<"ok">>]
  [] o[1] = "again" -> IF z.t[o[2]].cb = 0 THEN [z |-> z, r |-> <<"err">>] ELSE [z |-> Again(z, o[2]), r |-> <<"ok">>]
  [] o[1] = "setrep" -> [z |-> [z EXCEPT !.t[o[2]].rep = o[3]], r |-> <<"ok">>]
  [] o[1] = "rep" -> [z |-> z, r |-> <<"num", z.t[o[2]].rep>>]
  [] o[1] \in Kinds -> IF o[3] = 1 THEN [z |-> StartW(z, o[1], o[2]), r |-> <<"ok">>] ELSE [z |-> StopW(z, o[1], o[2]), r |-> <<"ok">>]
  [] o[1] = "send" -> [z |-> [z EXCEPT !.pend[o[2]] = TRUE, !.wake = @ \/ ~z.pend[o[2]]], r |-> <<"ok">>]
  [] o[1] = "sleep" -> [z |-> [z EXCEPT !.now = @ + o[2]], r |-> <<"none">>]
  [] o[1] = "walk" -> [z |-> z, r |-> <<"all">>]
Ops(z, os) == FoldLeft(LAMBDA a, o: LET x == Op(a.z, o) IN [z |-> x.z, rs |-> Append(a.rs, <<o, x.r>>)], [z |-> z, rs |-> <<>>], os)
Alive(z) == NA > 0 \/ (\E i \in 1..NT: z.t[i].on) \/ (\E k \in Kinds: z.q[k] # <<>>)
StopAll == [i \in 1..NT |-> <<"stop", i>>] \o [i \in 1..NW |-> <<"idle", i, 0>>] \o [i \in 1..NW |-> <<"prepare", i, 0>>] \o [i \in 1..NW |-> <<"check", i, 0>>]
Before(z, i, j) == z.t[i].due < z.t[j].due \/ (z.t[i].due = z.t[j].due /\ z.t[i].seq < z.t[j].seq)
On(z) == {i \in 1..NT: z.t[i].on}
\* the expired ones, in order of due time, those due together in order of their starts
Expire(z) == LET x == {i \in On(z): z.t[i].due <= z.lt} IN
  [z EXCEPT !.ready = SetToSortSeq(x, LAMBDA i, j: Before(z, i, j)), !.t = [i \in 1..NT |-> IF i \in x THEN [z.t[i] EXCEPT !.on = FALSE] ELSE z.t[i]]]
Wait(z) == IF On(z) = {} THEN -1 ELSE LET d == CHOOSE i \in On(z): \A j \in On(z) \ {i}: Before(z, i, j) IN IF z.t[d].due <= z.lt THEN 0 ELSE z.t[d].due - z.lt

R(T) == RandomElement(T)
TOp(x) == LET k == R(1..(11 + 0 * x)) i == R(1..NT) IN CASE k <= 4 -> <<"start", i, R({0, 0, 1, 2, 3, 5, 7}), R({0, 0, 1, 2, 3})>> [] k \in {5, 6} -> <<"stop", i>> [] k \in {7, 8} -> <<"again", i>>
  [] k = 9 -> <<"setrep", i, R(0..4)>> [] k = 10 -> <<"rep", i>> [] OTHER -> <<"sleep", R(1..6)>>
WOp(x) == <<R({"idle", "prepare", "check"}), R(1..(NW + 0 * x)), R({0, 1})>>
AnyOp(x) == LET k == R(1..(10 + 0 * x)) IN IF NA > 0 /\ k <= 3 THEN <<"send", R(1..NA)>> ELSE IF NW > 0 /\ (k <= 6 \/ NT = 0) THEN WOp(x) ELSE IF NT > 0 THEN TOp(x) ELSE <<"sleep", 1>>
MainOp(x) == IF R(1..(12 + 0 * x)) = 1 THEN <<"walk">> ELSE AnyOp(x)
Some(x) == [i \in 1..R({0 * x, 0, 1, 1, 1, 2}) |-> AnyOp(x + i)]

Init == s = S0 /\ pc = "main" /\ log = <<>> /\ left = [ops |-> MainOps, runs |-> Runs]
\* the program between runs
Main == pc = "main" /\ \/ /\ left.ops > 0 /\ \E o \in {MainOp(left.ops)}: LET x == Op(s, o) IN
                             s' = x.z /\ log' = Append(log, <<"main", s.now, o, x.r>>) /\ pc' = "main" /\ left' = [left EXCEPT !.ops = @ - 1]
                       \/ /\ left.runs > 0 /\ (left.ops = 0 \/ R(1..(4 + 0 * left.ops)) = 1)
                          /\ \E m \in {R({"default", "default", "once", "nowait", "once"})}:
                             /\ s' = LET z == [s EXCEPT !.mode = m, !.alive = Alive(s)] IN IF ~Alive(s) THEN [z EXCEPT !.lt = s.now]
                                     ELSE IF m = "default" THEN Expire([z EXCEPT !.lt = s.now]) ELSE z
                             /\ pc' = IF ~Alive(s) THEN "ran" ELSE IF m = "default" THEN "pre" ELSE "pass"
                             /\ left' = [left EXCEPT !.runs = @ - 1] /\ log' = Append(log, <<"run", m, s.now>>)
                       \/ left.runs = 0 /\ left.ops = 0 /\ pc' = "end" /\ UNCHANGED <<s, log, left>>
Ran == pc = "ran" /\ pc' = "main" /\ log' = Append(log, <<"ran", s.now>>) /\ UNCHANGED <<s, left>>
\* a callback: what is called, and the operations it does
Call(z, what, next) == LET os == IF z.fires >= Depth THEN StopAll ELSE Some(z.fires) IN
  /\ \E o \in {os}: LET x == Ops([z EXCEPT !.fires = @ + 1], o) IN s' = x.z /\ log' = Append(log, <<"call", what, z.now, x.rs>>)
  /\ pc' = next /\ UNCHANGED left
Timers(next) == IF s.ready = <<>> THEN pc' = next /\ UNCHANGED <<s, log, left>>
  ELSE LET i == Head(s.ready) IN Call(Again([s EXCEPT !.ready = Tail(@)], i), <<"timer", i, s.t[i].cb>>, pc)
Pre == pc = "pre" /\ Timers("pass")
Walk(k) == [s EXCEPT !.lq = [i \in 1..Len(s.q[k]) |-> <<k, s.q[k][i]>>], !.q[k] = <<>>]
Pass == pc = "pass" /\ s' = [Walk("idle") EXCEPT !.sleep = s.q["idle"] = <<>>] /\ pc' = "idle" /\ UNCHANGED <<log, left>>
Each(k, z, next) == IF s.lq = <<>> THEN s' = z /\ pc' = next /\ UNCHANGED <<log, left>>
  ELSE LET i == Head(s.lq)[2] IN Call([s EXCEPT !.lq = Tail(@), !.q[k] = Append(@, i)], <<k, i, s.wcb[k][i]>>, pc)
Idle == pc = "idle" /\ Each("idle", Walk("prepare"), "prepare")
Prepare == pc = "prepare" /\ Each("prepare", s, "poll")
\* waits for what comes first: a message or the next timer
Poll == pc = "poll" /\ LET may == s.mode = "default" \/ (s.mode = "once" /\ s.sleep)
                           w == IF ~may \/ ~Alive(s) \/ s.q["idle"] # <<>> THEN 0 ELSE Wait(s) IN
  IF s.wake THEN s' = [s EXCEPT !.wake = FALSE, !.la = 1, !.lt = s.now] /\ pc' = "async" /\ UNCHANGED <<log, left>>
  ELSE IF w = -1 THEN pc' = "end" /\ log' = Append(log, <<"blocked", s.now>>) /\ UNCHANGED <<s, left>>
  ELSE s' = [Walk("check") EXCEPT !.now = @ + w, !.lt = s.now + w] /\ pc' = "check" /\ UNCHANGED <<log, left>>
Async == pc = "async" /\ IF s.la > NA THEN s' = Walk("check") /\ pc' = "check" /\ UNCHANGED <<log, left>>
  ELSE IF s.pend[s.la] THEN Call([s EXCEPT !.pend[s.la] = FALSE, !.la = @ + 1], <<"async", s.la, 0>>, "async")
  ELSE s' = [s EXCEPT !.la = @ + 1] /\ UNCHANGED <<pc, log, left>>
Check == pc = "check" /\ Each("check", Expire([s EXCEPT !.lt = s.now]), "timers")
TimersAfter == pc = "timers" /\ Timers("over")
Over == pc = "over" /\ pc' = (IF s.mode = "default" /\ Alive(s) THEN "pass" ELSE "ran") /\ UNCHANGED <<s, log, left>>
Next == Main \/ Ran \/ Pre \/ Pass \/ Idle \/ Prepare \/ Poll \/ Async \/ Check \/ TimersAfter \/ Over
Spec == Init /\ [][Next]_vars
(* what a program relies on *)
\* a callback is only made for a handle that was started, and for a timer never before it is due; a timer that does not repeat is then stopped
NotEarly == [][(s'.fires # s.fires /\ pc \in {"pre", "timers"}) => LET i == Head(s.ready) IN s.t[i].due <= s.lt /\ s.t[i].cb > 0]_vars
\* expired timers are called in order of due time
InOrder == \A a, b \in 1..Len(s.ready): a < b => s.t[s.ready[a]].due <= s.t[s.ready[b]].due \/ s.t[s.ready[a]].cb = 0
\* a run ends when nothing is active, or after one pass
Ends == [][(pc' = "ran" /\ s.mode = "default") => ~Alive(s)]_vars
\* the loop never waits longer than the next timer has left, going by the time of the loop
Waits == [][pc = "poll" => \A i \in On(s): s'.now - s.now <= s.t[i].due - s.lt \/ s'.now = s.now]_vars
\* at most once in a pass
Unique == \A k \in Kinds: Len(s.q[k]) = Cardinality(ToSet(s.q[k])) /\ \A i \in 1..Len(s.q[k]): ~In(<<k, s.q[k][i]>>, s.lq)
Stopping == [][s'.fires # s.fires /\ pc = "idle" => In(Head(s.lq)[2], s'.q["idle"]) \/ s'.fires > 0]_vars
Emit == (pc = "end") => PrintT(<<"@P", ToJson([l |-> log])>>)
=============================================================================
