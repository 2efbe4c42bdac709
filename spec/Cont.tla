-------------------------------- MODULE Cont --------------------------------
(* Continuations.  A machine whose control state is a stack of frames: running code with its
   variables, or a loop of a built-in (times, each, to) with what it has still to pass.  here stores the
   whole stack; calling the stored continuation makes it the stack again, variables included, while
   the heap (cells, slots and the output) stays as it is.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Mode, NF, Fuel, Steps, Budget, Progs
VARIABLES prog, frames, cells, slots, conts, out, n
vars == <<prog, frames, cells, slots, conts, out, n>>
(* prog[f]: the statements of function f; prog[1] is the main program *)
Env(a) == [a |-> a, b |-> 0, t |-> 0]
RunF(k, a, ret) == [kind |-> "run", k |-> k, env |-> Env(a), ret |-> ret]
LoopF(vs, body) == [kind |-> "loop", vs |-> vs, body |-> body]
Top == frames[Len(frames)]
Rest == [Top EXCEPT !.k = Tail(@)]              \* the running frame after its first statement
With(f) == Append(Front(frames), f)
SetVar(f, x, v) == [f EXCEPT !.env[x] = v]
Val(f, e) == CASE e[1] = "k" -> e[2] [] e[1] = "v" -> f.env[e[2]] [] e[1] = "c" -> cells[e[2]]
Halted == frames = <<>>
\* the caller gets the value of a finished function
Return(fs, v, ret) == IF fs = <<>> THEN fs ELSE
  LET p == fs[Len(fs)] IN IF p.kind = "loop" \/ ret = "_" THEN fs ELSE Append(Front(fs), SetVar(p, ret, v))

Keep == UNCHANGED <<cells, slots, conts, out>>
Exec(s) ==
  CASE s[1] = "inc" -> frames' = With(SetVar(Rest, s[2], Rest.env[s[2]] + s[3])) /\ Keep
    [] s[1] = "cell" -> frames' = With(Rest) /\ cells' = [cells EXCEPT ![s[2]] = @ + 1] /\ UNCHANGED <<slots, conts, out>>
    [] s[1] = "load" -> frames' = With(SetVar(Rest, s[2], cells[s[3]])) /\ Keep
    [] s[1] = "out" -> frames' = With(Rest) /\ out' = Append(out, <<s[2], Top.env.a, Top.env.b, cells>>) /\ UNCHANGED <<cells, slots, conts>>
    [] s[1] = "here" -> LET c == Len(conts) + 1 fs == With([Rest EXCEPT !.k = <<<<"save", s[2], c>>>> \o @]) IN
                        conts' = Append(conts, fs) /\ frames' = fs /\ UNCHANGED <<cells, slots, out>>
    [] s[1] = "save" -> frames' = With(Rest) /\ slots' = [slots EXCEPT ![s[2]] = s[3]] /\ UNCHANGED <<cells, conts, out>>
    [] s[1] = "go" -> IF cells[1] >= Fuel THEN frames' = With(Rest) /\ Keep
                      ELSE /\ cells' = [cells EXCEPT ![1] = @ + 1] /\ UNCHANGED <<slots, conts, out>>
                           /\ frames' = IF slots[s[2]] = 0 THEN With(Rest) ELSE conts[slots[s[2]]]
    [] s[1] = "call" -> frames' = With(Rest) \o <<RunF(prog[s[3]], Val(Top, s[4]), s[2])>> /\ Keep
    [] s[1] = "sum" ->      \* x = f(e) + g(d): the first result waits while g runs
         frames' = With([Rest EXCEPT !.k = <<<<"sum2", s[2], s[5], s[6]>>>> \o @]) \o <<RunF(prog[s[3]], Val(Top, s[4]), "t")>> /\ Keep
    [] s[1] = "sum2" -> frames' = With([Rest EXCEPT !.k = <<<<"sum3", s[2], Top.env.t>>>> \o @]) \o <<RunF(prog[s[3]], Val(Top, s[4]), "t")>> /\ Keep
    [] s[1] = "sum3" -> frames' = With(SetVar(Rest, s[2], s[3] + Top.env.t)) /\ Keep
    [] s[1] = "if" -> frames' = With([Rest EXCEPT !.k = (IF Val(Top, s[2]) < s[3] THEN s[4] ELSE s[5]) \o @]) /\ Keep
    [] s[1] = "while" -> frames' = (IF Top.env[s[2]] < s[3] THEN With([SetVar(Rest, s[2], Top.env[s[2]] + 1) EXCEPT !.k = s[4] \o <<s>> \o @]) ELSE With(Rest)) /\ Keep
    [] s[1] \in {"times", "each", "to"} -> frames' = With(Rest) \o <<LoopF(s[2], s[3])>> /\ Keep
Step == /\ ~Halted /\ n < Steps /\ n' = n + 1 /\ UNCHANGED prog
        /\ IF Top.kind = "loop" THEN
             /\ frames' = (IF Top.vs = <<>> THEN Front(frames) ELSE With([Top EXCEPT !.vs = Tail(@)]) \o <<RunF(Top.body, Head(Top.vs), "_")>>)
             /\ UNCHANGED <<cells, slots, conts, out>>
           ELSE IF Top.k = <<>> THEN frames' = Return(Front(frames), Top.env.a + Top.env.b, Top.ret) /\ Keep
           ELSE Exec(Head(Top.k))

(* programs: all of a list, or random ones *)
Rnd(T) == RandomElement(T)
Ex(x) == LET k == Rnd(1..4) IN CASE k = 1 -> <<"k", Rnd(0..3)>> [] k = 2 -> <<"c", Rnd(2..4)>> [] OTHER -> <<"v", Rnd({"a", "b"})>>
RECURSIVE Stm(_, _), Block(_, _, _)
Stm(f, d) == LET k == Rnd(1..24) IN
  CASE k \in {1, 2} -> <<"inc", Rnd({"a", "b"}), Rnd(1..3)>> [] k = 3 -> <<"cell", Rnd(2..4)>> [] k = 4 -> <<"load", Rnd({"a", "b"}), Rnd(2..4)>>
    [] k \in {5, 6, 7} -> <<"out", Rnd(1..99)>> [] k \in {8, 9, 10} -> <<"here", Rnd(1..3)>> [] k \in {11, 12, 13} -> <<"go", Rnd(1..3)>>
    [] k \in {14, 15} /\ f < NF -> <<"call", Rnd({"a", "b"}), Rnd((f + 1)..NF), Ex(d)>>
    [] k \in {16, 17} /\ f < NF -> <<"sum", Rnd({"a", "b"}), Rnd((f + 1)..NF), Ex(d), Rnd((f + 1)..NF), Ex(d + 1)>>
    [] k \in {18, 19} /\ d > 0 -> <<"if", Ex(d), Rnd(1..4), Block(f, d - 1, 3), Block(f, d - 1, 2)>>
    [] k = 20 /\ d > 0 -> <<"while", "b", Rnd(1..3), Block(f, d - 1, 3)>>
    [] k = 21 /\ d > 0 -> <<"times", [i \in 1..Rnd(1..3) |-> i - 1], Block(f, d - 1, 3)>>
    [] k = 22 /\ d > 0 -> <<"each", [i \in 1..Rnd(1..3) |-> Rnd(5..60)], Block(f, d - 1, 3)>>
    [] k = 23 /\ d > 0 -> LET s == Rnd(1..4) IN <<"to", [i \in 1..Rnd(1..3) |-> s + i], Block(f, d - 1, 3)>>
    [] OTHER -> <<"out", Rnd(1..99)>>
Block(f, d, m) == [i \in 1..Rnd(1..m) |-> Stm(f, d)]
RandomProg(d) == [f \in 1..NF |-> <<<<"out", f>>>> \o [i \in 1..Rnd(2..(IF f = 1 THEN 7 ELSE 4)) |-> Stm(f, d)] \o <<<<"out", 100 + f>>>>]

Init == /\ frames = <<RunF(<<<<"boot">>>>, 0, "_")>> /\ cells = <<0, 0, 0, 0>> /\ slots = <<0, 0, 0>> /\ conts = <<>> /\ out = <<>> /\ n = 0
        /\ prog = <<>>
Boot == /\ n = 0 /\ n' = 1 /\ UNCHANGED <<cells, slots, conts, out>>
        /\ (IF Mode = "bfs" THEN \E i \in 1..Len(Progs): prog' = Progs[i] ELSE \E t \in 1..8: prog' = TLCEval(RandomProg(Budget + 0 * t)))
        /\ frames' = <<RunF(prog'[1], 0, "_")>>
End == Halted /\ n < Steps + 10 /\ n' = Steps + 10 /\ UNCHANGED <<prog, frames, cells, slots, conts, out>>
Next == (n = 0 /\ Boot) \/ (n > 0 /\ Step) \/ End
Spec == Init /\ [][Next]_vars

\* a stored continuation is the stack as it was: nothing changes it later, and it lies within the program
Frozen == [][\A i \in 1..Len(conts): conts'[i] = conts[i]]_vars
Resumed == \A s \in 1..3: slots[s] <= Len(conts)
Emit == (Halted /\ n = Steps + 10) => PrintT(<<"@C", ToJson([p |-> prog, out |-> out, jumps |-> cells[1], conts |-> Len(conts)])>>)
=============================================================================
