-------------------------------- MODULE Rec --------------------------------
(* Calls nested to any depth.  Functions (or methods) call one another with n - 1 until n is 0; on the way
   down each binds its parameters, defaults and local variables, and may write, through a closure handed
   down, a local variable of the activation the closure was made in; on the way up each computes its value
   from its own variables and the value of the call.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Depths, MaxF, MaxP, MaxO, MaxL, Feat
VARIABLES prog, runs
vars == <<prog, runs>>
M == 1009
R(S) == RandomElement(S)
Draw(n, Op(_)) == FoldLeft(LAMBDA a, i: Append(a, Op(i)), <<>>, [i \in 1..n |-> i])
\* an expression: indices into the visible variables (taken modulo their number) and coefficients
Ex(i) == <<R(1..(97 + 0 * i)), R(1..(9 + 0 * i)), R(1..(97 + 0 * i)), R(1..(9 + 0 * i)), R(0..(50 + 0 * i))>>
V(env, i) == env[((i - 1) % Len(env)) + 1]
Val(e, env) == (V(env, e[1]) * e[2] + V(env, e[3]) * e[4] + e[5]) % M
Flag(f, i) == f \in Feat /\ R(1..(2 + 0 * i)) = 1
Fn(i) == [np |-> R(0..(MaxP + 0 * i)), opt |-> Draw(R(0..(MaxO + 0 * i)), LAMBDA j: R(0..(99 + 0 * j))), loc |-> Draw(R(0..(MaxL + 0 * i)), Ex),
          nx |-> R(1..(97 + 0 * i)), args |-> Draw(MaxP + 0 * i, Ex), given |-> R(0..(9 + 0 * i)), gargs |-> Draw(MaxO + 0 * i, Ex), res |-> Ex(i), base |-> Ex(i),
          put |-> Flag("closure", i), fresh |-> Flag("closure", i), field |-> Flag("method", i), block |-> Flag("block", i), ret |-> Flag("return", i)]
Prog(t) == [fs |-> Draw(R(1..(MaxF + 0 * t)), Fn), a |-> Draw(MaxP + 0 * t, LAMBDA j: R(0..(999 + 0 * j))), meth |-> Flag("method", t)]
Next1(p, f) == p.fs[((f.nx - 1) % Len(p.fs)) + 1]
NextI(p, f) == ((f.nx - 1) % Len(p.fs)) + 1
\* the variables of an activation: n, parameters, optional parameters, then the local variables
Locals(f, env) == FoldLeft(LAMBDA e, x: Append(e, Val(x, e)), env, f.loc)
X1(f) == 1 + f.np + Len(f.opt) + 1
Given(f, g) == IF Len(g.opt) = 0 THEN 0 ELSE f.given % (Len(g.opt) + 1)
\* s: the stack of activations [i, env, k], top: a variable of the program, h: a field of the receiver
\* k: whose first local variable the closure writes (0: the variable top)
Enter(p, s, i, n, args, k) ==
  LET f == p.fs[i] env == Locals(f, <<n>> \o args) h == IF p.meth /\ f.field THEN (s.h * 3 + n) % M ELSE s.h IN
  \* through the closure k
  LET s1 == IF ~f.put \/ n = 0 THEN [s EXCEPT !.h = h]
            ELSE IF k = 0 THEN [s EXCEPT !.h = h, !.top = (@ * 2 + n) % M]
            ELSE LET x == X1(p.fs[s.st[k].i]) IN [s EXCEPT !.h = h, !.st[k].env[x] = (@ * 2 + n) % M] IN
  [s1 EXCEPT !.st = Append(@, [i |-> i, env |-> env, k |-> k])]
Down(p, s, n) ==
  LET a == s.st[Len(s.st)] f == p.fs[a.i] g == Next1(p, f) m == Given(f, g)
      args == [j \in 1..g.np |-> Val(f.args[j], a.env)] \o [j \in 1..Len(g.opt) |-> IF j <= m THEN Val(f.gargs[j], a.env) ELSE g.opt[j]]
  IN Enter(p, s, NextI(p, f), n, args, IF f.fresh /\ Len(f.loc) > 0 THEN Len(s.st) ELSE a.k)
Up(p, s, r) == LET f == p.fs[s.st[r[1]].i] IN <<r[1] - 1, (r[2] * f.res[2] + V(s.st[r[1]].env, f.res[3]) * f.res[4] + f.res[5]) % M>>
Run(p, d) ==
  LET f == p.fs[1]
      s0 == Enter(p, [st |-> <<>>, top |-> 5, h |-> 1], 1, d, [j \in 1..f.np |-> p.a[j]] \o f.opt, 0)
      s == FoldLeft(LAMBDA x, j: Down(p, x, d - j), s0, [j \in 1..d |-> j])
      b == s.st[d + 1]
      r == FoldLeft(LAMBDA x, j: Up(p, s, x), <<d, Val(p.fs[b.i].base, b.env)>>, [j \in 1..d |-> j])
  IN <<d, r[2], s.top, s.h>>
Init == prog = <<>> /\ runs = <<>>
Write == prog = <<>> /\ \E t \in 1..2: \E p \in {Prog(t)}: prog' = p /\ UNCHANGED runs
Call == prog # <<>> /\ runs = <<>> /\ \E ds \in {Draw(3 + 0 * Len(prog.fs), LAMBDA j: R(Depths))}: runs' = [j \in 1..3 |-> Run(prog, ds[j])] /\ UNCHANGED prog
Next == Write \/ Call
Spec == Init /\ [][Next]_vars
InRange == \A j \in 1..Len(runs): \A i \in 2..4: runs[j][i] \in 0..(M - 1)
Emit == runs # <<>> => PrintT(<<"@P", ToJson([p |-> prog, r |-> runs])>>)
=============================================================================
