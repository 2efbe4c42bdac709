-------------------------------- MODULE Lang --------------------------------
(* The potion language as a transition system: a state is a program text so far and
   the machine that executed it; a transition appends one top level statement and
   executes it.  Exec/Eval are the reference semantics of assignment, arithmetic,
   conditionals, loops, blocks, closures and calls.

   Statements  <<"set",x,e>> <<"opset",x,o,e>> <<"def",x,fn>> <<"say",e>> <<"do",e>> <<"ret",e>> <<"yield",fn>>
               <<"if", <<<<c,body>>,...>>, else>> <<"while",c,body>> <<"loop",body>> <<"break">> <<"cont">>
               <<"times",n,x,body>> <<"to",a,b,x,body>> <<"step",a,b,c,x,body>>  (bodies with their locals)
               <<"idx",l,i>> is l[i]
   fn          <<"fn", params, locals, body>>, params <<x>> or <<x,default>>
   Machine     cells (values of the variables of every activation), clos (fn and environment),
               objs (lists), out (lines printed), sig ("", "break", "cont", "ret"), val, fuel, ok     *)
EXTENDS Expr, Json
CONSTANTS Mode,       \* "sim": random programs, "bfs": all sequences over Alphabet
          Depth,      \* number of top level statements
          Feat,       \* features the random programs use
          Size,       \* nesting of random statements and expressions
          NV,         \* how many choices each transition draws
          Alphabet,   \* bfs: the statement sequences to choose from
          Prelude,    \* bfs: statements executed first
          Finale      \* bfs: statements executed last
VARIABLES prog, m, g
vars == <<prog, m, g>>

(* ------------------------------- semantics -------------------------------- *)
Fuel == 1500
M0 == [cells |-> <<>>, clos |-> <<>>, objs |-> <<>>, out |-> <<>>, sig |-> "", val |-> N, fuel |-> Fuel, ok |-> TRUE]
Bad(s) == [s EXCEPT !.ok = FALSE]
Val(s, v) == IF v = Err THEN Bad(s) ELSE [s EXCEPT !.val = v]
New(s, env, names, vals) ==           \* fresh cells for names
  [s |-> [s EXCEPT !.cells = @ \o vals], env |-> [n \in {names[i]: i \in 1..Len(names)} |->
     Len(s.cells) + (CHOOSE i \in 1..Len(names): names[i] = n /\ \A j \in (i+1)..Len(names): names[j] # n)] @@ env]
Nils(k) == [i \in 1..k |-> N]
SetV(s, env, x, v) == IF x \in DOMAIN env THEN [s EXCEPT !.cells[env[x]] = v] ELSE Bad(s)

RECURSIVE ShowV(_, _, _)
RECURSIVE ShowL(_, _, _)
ShowV(v, s, d) == IF v[1] # "l" THEN Show(v) ELSE IF d = 0 THEN "?" ELSE "(" \o ShowL(s.objs[v[2]], s, d - 1) \o ")"
ShowL(vs, s, d) == IF vs = <<>> THEN "" ELSE ShowV(vs[1], s, d) \o (IF Len(vs) = 1 THEN "" ELSE ", " \o ShowL(Tail(vs), s, d))
RECURSIVE Deep(_, _, _)
Deep(v, s, d) == v[1] = "l" /\ (d = 0 \/ \E i \in 1..Len(s.objs[v[2]]): Deep(s.objs[v[2]][i], s, d - 1))
RECURSIVE HasClo(_, _, _)
HasClo(v, s, d) == v[1] = "c" \/ (v[1] = "l" /\ d > 0 /\ \E i \in 1..Len(s.objs[v[2]]): HasClo(s.objs[v[2]][i], s, d - 1))

RECURSIVE Eval(_, _, _)
RECURSIVE EvalAll(_, _, _, _)
RECURSIVE Call(_, _, _)
RECURSIVE Exec(_, _, _)
RECURSIVE ExecSeq(_, _, _)
RECURSIVE Loop(_, _, _, _)
RECURSIVE Visits(_, _, _, _, _)

\* evaluates es left to right: [s |-> machine, vs |-> values]
EvalAll(es, env, s, acc) ==
  FoldLeft(LAMBDA a, e: IF ~a.s.ok THEN a ELSE LET r == Eval(e, env, a.s) IN [s |-> r, vs |-> Append(a.vs, r.val)], [s |-> s, vs |-> acc], es)

ListOp(l, name, a, s) ==
  LET o == s.objs[l[2]] IN
  CASE name = "length" -> Val(s, I(Len(o)))
    [] name = "at" -> IF a[1][1] # "i" THEN Bad(s)
         ELSE LET i == IF a[1][2] < 0 THEN a[1][2] + Len(o) ELSE a[1][2] IN
              Val(s, IF i < 0 \/ i >= Len(o) THEN N ELSE o[i + 1])
    [] name = "push" -> IF Len(o) > 40 THEN Bad(s) ELSE Val([s EXCEPT !.objs[l[2]] = Append(o, a[1])], l)
    [] name = "pop" -> IF o = <<>> THEN Val(s, N) ELSE Val([s EXCEPT !.objs[l[2]] = SubSeq(o, 1, Len(o) - 1)], o[Len(o)])
    [] name = "put" -> IF a[1][1] # "i" THEN Bad(s) ELSE IF a[1][2] \notin 0..Len(o)-1 THEN Bad(s)
                       ELSE Val([s EXCEPT !.objs[l[2]][a[1][2] + 1] = a[2]], l)
    [] OTHER -> Bad(s)

Eval(e, env, s) ==
  IF ~s.ok THEN s ELSE
  CASE e[1] \in {"n", "s", "k"} -> Val(s, PureVal(e, env))
    [] e[1] = "v" -> IF e[2] \in DOMAIN env THEN Val(s, s.cells[env[e[2]]]) ELSE Bad(s)
    [] e[1] = "op" /\ e[2] \in {"and", "or"} ->
         LET a == Eval(e[3], env, s) IN
         IF ~a.ok \/ (Truthy(a.val) # (e[2] = "and")) THEN a ELSE Eval(e[4], env, a)
    [] e[1] = "op" -> LET a == Eval(e[3], env, s)  b == Eval(e[4], env, a) IN
         IF ~b.ok THEN b ELSE Val(b, Apply2(e[2], a.val, b.val))
    [] e[1] = "un" -> LET a == Eval(e[3], env, s) IN IF ~a.ok THEN a ELSE Val(a, Apply1(e[2], a.val))
    [] e[1] = "inc" -> LET old == Eval(<<"v", e[2]>>, env, s) IN
         IF ~old.ok \/ old.val[1] # "i" THEN Bad(s)
         ELSE LET v == Clip(old.val[2] + (IF e[3] = "++" THEN 1 ELSE -1)) IN
              IF v = Err THEN Bad(s) ELSE Val(SetV(old, env, e[2], v), IF e[4] THEN v ELSE old.val)
    [] e[1] = "msg" -> LET a == Eval(e[2], env, s)  bs == EvalAll(e[4], env, a, <<>>) IN
         IF ~bs.s.ok THEN bs.s ELSE IF a.val[1] = "l" THEN ListOp(a.val, e[3], bs.vs, bs.s) ELSE
         IF a.val[1] = "c" THEN (LET ps == bs.s.clos[a.val[2]].fn[2] IN
           Val(bs.s, CASE e[3] = "arity" -> I(Len(ps)) [] e[3] = "minargs" -> I(Len(SelectSeq(ps, LAMBDA p: Len(p) = 1))) [] OTHER -> Err)) ELSE Val(bs.s, Answer(e[3], a.val))
    [] e[1] = "idx" -> LET l == Eval(<<"v", e[2]>>, env, s)  i == Eval(e[3], env, l) IN      \* l[i]; a constant beyond the list is unchecked
         IF ~i.ok \/ l.val[1] # "l" \/ i.val[1] # "i" THEN Bad(s)
         ELSE IF e[3][1] = "n" /\ e[3][2] >= Len(i.objs[l.val[2]]) THEN Bad(s) ELSE ListOp(l.val, "at", <<i.val>>, i)
    [] e[1] = "lst" -> LET bs == EvalAll(e[2], env, s, <<>>) IN
         IF ~bs.s.ok THEN bs.s ELSE Val([bs.s EXCEPT !.objs = Append(@, bs.vs)], <<"l", Len(bs.s.objs) + 1>>)
    [] e[1] = "fn" -> Val([s EXCEPT !.clos = Append(@, [fn |-> e, env |-> env])], <<"c", Len(s.clos) + 1>>)
    [] e[1] = "call" ->
         LET f == Eval(<<"v", e[2]>>, env, s)
             pos == SelectSeq(e[3], LAMBDA x: x[1] # "arg")
             nam == SelectSeq(e[3], LAMBDA x: x[1] = "arg")
             r == EvalAll([i \in 1..Len(e[3]) |-> IF e[3][i][1] = "arg" THEN e[3][i][3] ELSE e[3][i]], env, f, <<>>) IN
         IF ~f.ok \/ ~r.s.ok \/ f.val[1] # "c" THEN Bad(s)
         ELSE Call(f.val, [i \in 1..Len(e[3]) |-> IF e[3][i][1] = "arg" THEN <<e[3][i][2], r.vs[i]>> ELSE <<"", r.vs[i]>>], r.s)
    [] OTHER -> Assert(FALSE, <<"no value for", e>>)

\* args: <<"",v>> positional, <<name,v>> named
Call(c, args, s) ==
  IF s.fuel = 0 THEN Bad(s) ELSE
  LET cl == s.clos[c[2]]   ps == cl.fn[2]   np == Len(ps)
      pos == SelectSeq(args, LAMBDA a: a[1] = "")
      bound == [i \in 1..np |->
         IF \E j \in 1..Len(args): args[j][1] = ps[i][1] THEN (CHOOSE a \in {args[j]: j \in 1..Len(args)}: a[1] = ps[i][1])[2]
         ELSE IF i <= Len(pos) THEN pos[i][2]
         ELSE IF Len(ps[i]) = 2 THEN I(ps[i][2]) ELSE IF Len(ps[i]) > 2 THEN ps[i][3] ELSE Err]
      names == [i \in 1..np |-> ps[i][1]] \o cl.fn[3]
      n == New([s EXCEPT !.fuel = @ - 1], cl.env, names, bound \o Nils(Len(cl.fn[3])))
      r == ExecSeq(cl.fn[4], n.env, n.s)
  IN IF Len(pos) > np \/ \E i \in 1..np: bound[i] = Err THEN Bad(s)
     ELSE IF r.ok /\ r.sig \in {"break", "cont"} THEN Bad(r) ELSE [r EXCEPT !.sig = ""]

ExecSeq(ss, env, s) == FoldLeft(LAMBDA a, st: IF ~a.ok \/ a.sig # "" THEN a ELSE Exec(st, env, a), s, ss)

\* while (c = <<>>: loop)
MaxIter == 60
Iter == [i \in 1..MaxIter |-> i]
Loop(c, body, env, s) ==
  LET one(t) ==            \* done: the loop was left
        IF t.done \/ ~t.s.ok THEN t ELSE
        LET v == IF c = <<>> THEN t.s ELSE Eval(c, env, t.s) IN
        IF ~v.ok THEN [s |-> v, done |-> TRUE]
        ELSE IF c # <<>> /\ ~Truthy(v.val) THEN [s |-> v, done |-> TRUE]
        ELSE LET b == ExecSeq(body, env, v) IN
             IF ~b.ok \/ b.sig = "ret" THEN [s |-> b, done |-> TRUE] ELSE IF b.sig = "break" THEN [s |-> [b EXCEPT !.sig = ""], done |-> TRUE]
             ELSE [s |-> [b EXCEPT !.sig = ""], done |-> FALSE]
      r == FoldLeft(LAMBDA t, i: one(t), [s |-> s, done |-> FALSE], Iter)
  IN IF r.done THEN r.s ELSE Bad(r.s)

\* calls closure c with i, i+by, ... until beyond lim
Visits(c, a, lim, by, s) ==
  LET n == IF (IF by > 0 THEN a > lim ELSE a < lim) THEN 0 ELSE Abs(lim - a) \div Abs(by) + 1 IN
  IF n > 200 THEN Bad(s) ELSE FoldLeft(LAMBDA t, i: IF ~t.ok THEN t ELSE Call(c, <<<<"", I(a + (i - 1) * by)>>>>, t), s, [i \in 1..n |-> i])
Blk(s, f, env) == [s EXCEPT !.clos = Append(@, [fn |-> f, env |-> env])]

Exec(st, env, s) ==
  IF ~s.ok THEN s ELSE
  CASE st[1] = "set" -> LET r == Eval(st[3], env, s) IN IF ~r.ok THEN r ELSE SetV(r, env, st[2], r.val)
    [] st[1] = "def" -> LET r == Eval(st[3], env, s) IN IF ~r.ok THEN r ELSE SetV(r, env, st[2], r.val)
    [] st[1] = "opset" -> LET r == Eval(<<"op", st[3], <<"v", st[2]>>, st[4]>>, env, s) IN IF ~r.ok THEN r ELSE SetV(r, env, st[2], r.val)
    [] st[1] = "say" -> LET bs == EvalAll(st[2], env, s, <<>>) IN
         IF ~bs.s.ok \/ \E i \in 1..Len(bs.vs): Deep(bs.vs[i], bs.s, 3) \/ HasClo(bs.vs[i], bs.s, 3) THEN Bad(bs.s)
         ELSE [bs.s EXCEPT !.out = Append(@, "(" \o ShowL(bs.vs, bs.s, 4) \o ")")]
    [] st[1] = "do" -> Eval(st[2], env, s)
    [] st[1] = "yield" -> Eval(st[2], env, s)
    [] st[1] = "ret" -> LET r == Eval(st[2], env, s) IN [r EXCEPT !.sig = "ret"]
    [] st[1] = "break" -> [s EXCEPT !.sig = "break"]
    [] st[1] = "cont" -> [s EXCEPT !.sig = "cont"]
    [] st[1] = "if" ->
         LET RECURSIVE Branch(_, _)
             Branch(bs, t) == IF bs = <<>> THEN ExecSeq(st[3], env, t)
               ELSE LET c == Eval(bs[1][1], env, t) IN
                    IF ~c.ok THEN c ELSE IF Truthy(c.val) THEN ExecSeq(bs[1][2], env, c) ELSE Branch(Tail(bs), c)
         IN Branch(st[2], s)
    [] st[1] = "while" -> Loop(st[2], st[3], env, s)
    [] st[1] = "loop" -> Loop(<<>>, st[2], env, s)
    [] st[1] = "times" -> LET n == Eval(st[2], env, s)  b == Blk(n, st[3], env) IN
         IF ~n.ok \/ n.val[1] # "i" THEN Bad(n) ELSE Visits(<<"c", Len(b.clos)>>, 0, n.val[2] - 1, 1, b)
    [] st[1] = "to" -> LET a == Eval(st[2], env, s)  z == Eval(st[3], env, a)  b == Blk(z, st[4], env) IN
         IF ~z.ok \/ a.val[1] # "i" \/ z.val[1] # "i" THEN Bad(z)
         ELSE Visits(<<"c", Len(b.clos)>>, a.val[2], z.val[2], IF z.val[2] < a.val[2] THEN -1 ELSE 1, b)
    [] st[1] = "step" -> LET a == Eval(st[2], env, s)  z == Eval(st[3], env, a)  k == Eval(st[4], env, z)  b == Blk(k, st[5], env) IN
         IF ~k.ok \/ a.val[1] # "i" \/ z.val[1] # "i" \/ k.val[1] # "i" THEN Bad(k) ELSE
         IF k.val[2] <= 0 THEN Bad(k) ELSE Visits(<<"c", Len(b.clos)>>, a.val[2], z.val[2], k.val[2], b)
    [] OTHER -> Assert(FALSE, <<"no execution for", st>>)

(* --------------------------------- texts ---------------------------------- *)
Ind(d) == SubSeq("                        ", 1, 2 * d)
RECURSIVE Lines(_, _, _)
RECURSIVE Body(_, _, _)
Body(ss, d, st) == FoldLeft(LAMBDA a, x: a \o Lines(x, d, st), <<>>, ss)
X(e, min, br, st) == Join(Toks(e, min, br, st))
Params(f) == "(" \o Join(ParamToks(f[2])) \o ")"
Block(head, f, d, st) == <<Ind(d) \o head \o " " \o Params(f) \o ":">> \o Body(f[4], d + 1, st) \o <<Ind(d) \o ".">>
Lines(s, d, st) ==
  CASE s[1] = "set" -> <<Ind(d) \o s[2] \o " = " \o X(s[3], 2, "|", st)>>
    [] s[1] = "opset" -> <<Ind(d) \o s[2] \o " " \o s[3] \o "= " \o X(s[4], 2, "|", st)>>
    [] s[1] = "def" -> Block(s[2] \o " =", s[3], d, st)
    [] s[1] = "yield" -> <<Ind(d) \o Params(s[2]) \o ":">> \o Body(s[2][4], d + 1, st) \o <<Ind(d) \o ".">>
    [] s[1] = "say" -> <<Ind(d) \o "(" \o Join(Args(s[2], st)) \o ") say">>
    [] s[1] = "do" -> <<Ind(d) \o X(s[2], 2, "|", st)>>
    [] s[1] = "ret" -> <<Ind(d) \o "return (" \o X(s[2], 0, "|", st) \o ")">>
    [] s[1] = "break" -> <<Ind(d) \o "break">>
    [] s[1] = "cont" -> <<Ind(d) \o "continue">>
    [] s[1] = "if" ->
         LET RECURSIVE Br(_, _)
             Br(bs, w) == IF bs = <<>> THEN <<>> ELSE
               <<Ind(d) \o w \o " (" \o X(bs[1][1], 0, "|", st) \o "):">> \o Body(bs[1][2], d + 1, st) \o <<Ind(d) \o ".">> \o Br(Tail(bs), "elsif")
         IN Br(s[2], "if") \o (IF s[3] = <<>> THEN <<>> ELSE <<Ind(d) \o "else:">> \o Body(s[3], d + 1, st) \o <<Ind(d) \o ".">>)
    [] s[1] = "while" -> <<Ind(d) \o "while (" \o X(s[2], 0, "|", st) \o "):">> \o Body(s[3], d + 1, st) \o <<Ind(d) \o ".">>
    [] s[1] = "loop" -> <<Ind(d) \o "loop:">> \o Body(s[2], d + 1, st) \o <<Ind(d) \o ".">>
    [] s[1] = "times" -> Block(X(s[2], 11, "|", st) \o " times", s[3], d, st)
    [] s[1] = "to" -> Block(X(s[2], 11, "|", st) \o " to (" \o X(s[3], 0, "|", st) \o ")", s[4], d, st)
    [] s[1] = "step" -> Block(X(s[2], 11, "|", st) \o " step (" \o X(s[3], 0, "|", st) \o " , " \o X(s[4], 0, "|", st) \o ")", s[5], d, st)
    [] OTHER -> Assert(FALSE, <<"no text for", s>>)

(* ------------------------------- generation ------------------------------- *)
(* everything is drawn from the choice vector c by position p in the tree being built.
   Context: vars (visible variables with their kinds, innermost last), decl (names
   declared so far around this point), fn, loop, cnt: break and continue allowed       *)
Ch(p, k) == (p * 61 + k * 37 + 11) % 30011
Rnd(c, p, n) == ((p * 7919 + c[(p % NV) + 1] * 1009 + c[((p \div 7) % NV) + 1] * 31) % 1000003) % n
Pick(c, p, s) == s[Rnd(c, p, Len(s)) + 1]
Names == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
           "aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh", "jj", "kk", "ll", "mm", "nn", "oo", "pp", "qq", "rr", "ss", "tt", "uu", "vv", "ww">>
        \o (IF "many" \in Feat THEN [i \in 1..150 |-> "v" \o ToString(i)] ELSE <<>>)
Fresh(ctx, c, p) == LET free == SelectSeq(Names, LAMBDA x: x \notin ctx.decl) IN
  IF free = <<>> THEN "zz" \o ToString(Cardinality(ctx.decl)) ELSE Pick(c, p, free)
\* kinds: "i" int, "s" string, "l" list, <<"f", nreq, nopt, kind of result>>
Visible(ctx) == SelectSeq([i \in 1..Len(ctx.vars) |-> [v |-> ctx.vars[i], last |-> \A j \in (i+1)..Len(ctx.vars): ctx.vars[j].n # ctx.vars[i].n]],
                          LAMBDA x: x.last)
OfKind(ctx, k) == LET vs == SelectSeq(Visible(ctx), LAMBDA x: x.v.k = k) IN [i \in 1..Len(vs) |-> vs[i].v.n]
Funs(ctx, r) == LET vs == SelectSeq(Visible(ctx), LAMBDA x: x.v.k[1] = "f" /\ x.v.k[4] = r) IN [i \in 1..Len(vs) |-> vs[i].v]
KI == <<"i">>  KS == <<"s">>  KL == <<"l">>
KF(nr, no, r) == <<"f", nr, no, r>>
Add(ctx, x, k) == [ctx EXCEPT !.vars = Append(@, [n |-> x, k |-> k]), !.decl = @ \cup {x}]
IntOps == <<"+", "-", "*", "+", "-", "/", "%", "<<", ">>", "**", "<=>">>
CmpOps == <<"<", "<=", ">", ">=", "==", "!=">>

RECURSIVE GInt(_, _, _, _)
RECURSIVE GBool(_, _, _, _)
RECURSIVE GArgs(_, _, _, _, _)
Lit(c, p) == IF Rnd(c, Ch(p, 9), 12) = 0 THEN <<"n", Pick(c, Ch(p, 8), <<100, 127, 128, 255, 256, 1000, 4095, 4096>>)>> ELSE <<"n", Rnd(c, p, 10)>>
GLeaf(ctx, c, p) == LET vs == OfKind(ctx, KI) IN
  IF vs = <<>> \/ Rnd(c, Ch(p, 1), 10) < 3 THEN Lit(c, Ch(p, 2)) ELSE <<"v", Pick(c, Ch(p, 3), vs)>>
\* arguments for a function of kind k
GArgs(k, ctx, c, p, d) == LET n == k[2] + Rnd(c, Ch(p, 4), k[3] + 1) IN [i \in 1..n |-> GInt(ctx, c, Ch(p, 10 + i), d - 1)]
GInt(ctx, c, p, d) ==
  IF d <= 0 THEN GLeaf(ctx, c, p) ELSE
  LET r == Rnd(c, p, 100)  fs == Funs(ctx, KI)  vs == OfKind(ctx, KI)  ls == OfKind(ctx, KL) IN
  CASE r < 45 -> LET o == Pick(c, Ch(p, 1), IntOps) IN
         <<"op", o, GInt(ctx, c, Ch(p, 2), d - 1),
           IF o \in {"/", "%", "<<", ">>", "**"} THEN <<"n", 1 + Rnd(c, Ch(p, 3), 3)>> ELSE GInt(ctx, c, Ch(p, 3), d - 1)>>
    [] r < 52 -> <<"un", Pick(c, Ch(p, 1), <<"-", "~">>), GInt(ctx, c, Ch(p, 2), d - 1)>>
    [] r < 56 -> <<"msg", GInt(ctx, c, Ch(p, 2), d - 1), "abs", <<>>>>
    [] r < 62 -> <<"op", Pick(c, Ch(p, 1), <<"and", "or">>), GInt(ctx, c, Ch(p, 2), d - 1), GInt(ctx, c, Ch(p, 3), d - 1)>>
    [] r < 68 /\ vs # <<>> /\ "inc" \in Feat -> <<"inc", Pick(c, Ch(p, 1), vs), Pick(c, Ch(p, 2), <<"++", "--">>), Rnd(c, Ch(p, 3), 2) = 0>>
    [] r < 82 /\ fs # <<>> -> LET f == Pick(c, Ch(p, 1), fs) IN <<"call", f.n, GArgs(f.k, ctx, c, p, d)>>
    [] r < 90 /\ ls # <<>> -> LET l == <<"v", Pick(c, Ch(p, 1), ls)>> IN
         (IF Rnd(c, Ch(p, 2), 3) = 0 THEN <<"msg", l, "length", <<>>>> ELSE IF Rnd(c, Ch(p, 2), 3) = 1 THEN
            <<"idx", l[2], IF vs = <<>> \/ Rnd(c, Ch(p, 4), 3) = 0 THEN <<"n", Pick(c, Ch(p, 3), <<0, 0, 1, 1, 2, 3, -1, -2>>)>> ELSE <<"v", Pick(c, Ch(p, 5), vs)>>>> ELSE <<"msg", l, "at", <<GInt(ctx, c, Ch(p, 3), 0)>>>>)
    [] OTHER -> GLeaf(ctx, c, p)
GBool(ctx, c, p, d) ==
  LET r == Rnd(c, p, 100) IN
  CASE r < 70 \/ d <= 0 -> <<"op", Pick(c, Ch(p, 1), CmpOps), GInt(ctx, c, Ch(p, 2), d - 1), GInt(ctx, c, Ch(p, 3), d - 1)>>
    [] r < 80 -> <<"un", "not", GBool(ctx, c, Ch(p, 1), d - 1)>>
    [] r < 96 -> <<"op", Pick(c, Ch(p, 1), <<"and", "or">>), GBool(ctx, c, Ch(p, 2), d - 1), GBool(ctx, c, Ch(p, 3), d - 1)>>
    [] OTHER -> <<"k", Pick(c, Ch(p, 1), <<"true", "false", "nil">>)>>
GStr(ctx, c, p, d) == LET vs == OfKind(ctx, KS)  r == Rnd(c, p, 10) IN
  CASE d > 0 /\ r < 4 -> <<"op", "+", LET h == Rnd(c, Ch(p, 5), 2) IN IF h = 0 \/ vs = <<>> THEN <<"s", Pick(c, Ch(p, 1), <<"ab", "c", "xyz">>)>> ELSE <<"v", Pick(c, Ch(p, 2), vs)>>,
                                IF vs = <<>> THEN <<"s", "q">> ELSE <<"v", Pick(c, Ch(p, 3), vs)>>>>
    [] r < 6 -> <<"msg", GInt(ctx, c, Ch(p, 1), 1), "string", <<>>>>
    [] r < 8 /\ vs # <<>> -> <<"v", Pick(c, Ch(p, 2), vs)>>
    [] OTHER -> <<"s", Pick(c, Ch(p, 4), <<"", "k", "ab", "hello">>)>>

\* statements: GSeq gives [ss, ctx]; blocks restore the visible variables but keep decl
RECURSIVE GSeq(_, _, _, _, _)
RECURSIVE GStmt(_, _, _, _)
RECURSIVE GFn(_, _, _, _, _)
GSeq(ctx, c, p, d, n) == IF n = 0 THEN [ss |-> <<>>, ctx |-> ctx]
  ELSE LET a == GStmt(ctx, c, Ch(p, 1), d)  b == GSeq(a.ctx, c, Ch(p, 2), d, n - 1) IN [ss |-> a.ss \o b.ss, ctx |-> b.ctx]
Inner(ctx, b) == [ctx EXCEPT !.decl = b.decl]
Stm(ss, ctx) == [ss |-> ss, ctx |-> ctx]
Len1(c, p) == 1 + Rnd(c, Ch(p, 77), 3)
\* a closure: kind of its parameters is int; res: kind of result; extra: names and kinds bound outside the parameters
RECURSIVE Assigned(_)
Assigned(ss) == UNION {LET s == ss[i] IN
   CASE s[1] \in {"set", "def"} -> {s[2]} [] s[1] = "if" -> Assigned(s[3]) \cup UNION {Assigned(s[2][j][2]): j \in 1..Len(s[2])}
     [] s[1] = "while" -> Assigned(s[3]) [] s[1] = "loop" -> Assigned(s[2]) [] OTHER -> {}: i \in 1..Len(ss)}
GFn(ctx, c, p, d, k) ==                 \* k: KF(nreq, nopt, result kind)
  LET np == k[2] + k[3]
      RECURSIVE Par(_, _)
      Par(i, used) == IF i > np THEN <<>> ELSE
        LET vis == OfKind(ctx, KI)
            n0 == IF vis # <<>> /\ Rnd(c, Ch(p, 40 + i), 5) = 0 THEN Pick(c, Ch(p, 50 + i), vis) ELSE Fresh([ctx EXCEPT !.decl = @ \cup used], c, Ch(p, 60 + i))
            n1 == IF n0 \in used THEN Fresh([ctx EXCEPT !.decl = @ \cup used], c, Ch(p, 70 + i)) ELSE n0
        IN <<IF i <= k[2] THEN <<n1>> ELSE <<n1, Rnd(c, Ch(p, 80 + i), 20)>>>> \o Par(i + 1, used \cup {n1})
      ps == Par(1, {})
      pn == {ps[i][1]: i \in 1..np}
      RECURSIVE AddAll(_, _)
      AddAll(x, i) == IF i > np THEN x ELSE AddAll(Add(x, ps[i][1], KI), i + 1)
      in == [AddAll(ctx, 1) EXCEPT !.fn = TRUE, !.loop = FALSE, !.cnt = FALSE]
      body == GSeq(in, c, Ch(p, 3), d - 1, Rnd(c, Ch(p, 4), 3))
      tail == IF k[4] = KI THEN
                (IF Rnd(c, Ch(p, 5), 6) = 0 THEN <<<<"ret", GInt(body.ctx, c, Ch(p, 6), d)>>>> ELSE <<<<"do", GInt(body.ctx, c, Ch(p, 6), d)>>>>)
              ELSE LET f == GFn(body.ctx, c, Ch(p, 6), d - 1, k[4]) IN
                (IF Rnd(c, Ch(p, 5), 3) = 0 THEN LET x == Fresh(body.ctx, c, Ch(p, 7)) IN <<<<"def", x, f>>, <<"do", <<"v", x>>>>>> ELSE <<<<"yield", f>>>>)
      all == body.ss \o tail
  IN <<"fn", ps, SetToSeq({x \in Assigned(all): x \notin pn /\ x \notin ctx.decl}), all>>
\* a block for times/to/step: one int parameter, result unused
GBlk(ctx, c, p, d) ==
  LET x == IF Rnd(c, Ch(p, 1), 6) = 0 /\ OfKind(ctx, KI) # <<>> THEN Pick(c, Ch(p, 2), OfKind(ctx, KI)) ELSE Fresh(ctx, c, Ch(p, 2))
      in == [Add(ctx, x, KI) EXCEPT !.fn = FALSE, !.loop = FALSE, !.cnt = FALSE]
      b == GSeq(in, c, Ch(p, 3), d - 1, Len1(c, p))
  IN <<"fn", <<<<x>>>>, SetToSeq({y \in Assigned(b.ss): y # x /\ y \notin ctx.decl}), b.ss>>
SayInts(ctx, c, p, d) == <<"say", [i \in 1..(1 + Rnd(c, Ch(p, 30), 2)) |-> GInt(ctx, c, Ch(p, 31 + i), d)]>>
(* loops whose bodies leave and continue them at many places, chains of many arms *)
RECURSIVE GLoop(_, _, _, _)
GJCond(x, top, c, p) == LET r == Rnd(c, p, 6) v == <<"v", x>> IN
  CASE r < 3 -> <<"op", "==", v, <<"n", Rnd(c, Ch(p, 1), top + 2)>>>>
    [] r < 5 -> LET mm == 2 + Rnd(c, Ch(p, 2), 5) IN <<"op", "==", <<"op", "%", v, <<"n", mm>>>>, <<"n", Rnd(c, Ch(p, 3), mm)>>>>
    [] OTHER -> <<"op", Pick(c, Ch(p, 4), <<"and", "or">>), <<"op", ">", v, <<"n", Rnd(c, Ch(p, 5), top)>>>>, <<"op", "!=", v, <<"n", Rnd(c, Ch(p, 6), top + 1)>>>>>>
GJSay(x, c, p) == <<"say", <<<<"v", x>>, <<"n", Rnd(c, p, 1000)>>>>>>
GJExit(x, c, p) == LET r == Rnd(c, p, 8) IN (IF r % 2 = 1 THEN <<GJSay(x, c, Ch(p, 1))>> ELSE <<>>) \o (IF r < 5 THEN <<<<"cont">>>> ELSE IF r = 6 THEN <<<<"break">>>> ELSE <<>>)
GJItem(ctx, x, top, c, p, d) == LET k == Rnd(c, p, 14) IN
  CASE k < 5 -> Stm(<<<<"if", <<<<GJCond(x, top, c, Ch(p, 1)), <<<<"cont">>>>>>>>, <<>>>>>>, ctx)
    [] k = 5 -> Stm(<<<<"if", <<<<<<"op", ">", <<"v", x>>, <<"n", top - Rnd(c, Ch(p, 2), 3)>>>>, <<<<"break">>>>>>>>, <<>>>>>>, ctx)
    [] k \in {6, 7} -> Stm(<<<<"if", [i \in 1..(2 + Rnd(c, Ch(p, 3), 7)) |-> LET b == GJExit(x, c, Ch(p, 20 + i)) IN <<GJCond(x, top, c, Ch(p, 10 + i)), IF b = <<>> THEN <<GJSay(x, c, Ch(p, 40 + i))>> ELSE b>>],
                         IF Rnd(c, Ch(p, 4), 2) = 0 THEN <<>> ELSE <<GJSay(x, c, Ch(p, 5))>> \o GJExit(x, c, Ch(p, 6))>>>>, ctx)
    [] k = 8 -> Stm(<<<<"if", <<<<GJCond(x, top, c, Ch(p, 1)), <<<<"if", <<<<GJCond(x, top, c, Ch(p, 2)), <<<<"cont">>>>>>>>, <<>>>>, GJSay(x, c, Ch(p, 5))>>>>>>, <<<<"cont">>>>>>>>, ctx)
    [] k = 9 /\ d > 0 -> GLoop(ctx, c, Ch(p, 7), d - 1)
    [] OTHER -> Stm(<<GJSay(x, c, Ch(p, 5))>>, ctx)
GLoop(ctx, c, p, d) == LET x == Fresh(ctx, c, Ch(p, 2)) top == 3 + Rnd(c, Ch(p, 3), IF d > 0 THEN 12 ELSE 5) n == 2 + Rnd(c, Ch(p, 4), 14)
      in == [Add(ctx, x, <<"none">>) EXCEPT !.loop = TRUE, !.cnt = TRUE]
      b == FoldLeft(LAMBDA a, i: LET t == GJItem(a.ctx, x, top, c, Ch(p, 100 + i), d) IN [ss |-> a.ss \o t.ss, ctx |-> t.ctx], [ss |-> <<>>, ctx |-> in], [i \in 1..n |-> i])
      bump == <<"opset", x, "+", <<"n", 1>>>> IN
  IF Rnd(c, Ch(p, 5), 3) > 0
    THEN Stm(<<<<"set", x, <<"n", 0>>>>, <<"while", <<"op", "<", <<"v", x>>, <<"n", top>>>>, <<bump>> \o b.ss>>>>, Inner(ctx, b.ctx))
    ELSE Stm(<<<<"set", x, <<"n", 0>>>>, <<"loop", <<bump, <<"if", <<<<<<"op", ">", <<"v", x>>, <<"n", top>>>>, <<<<"break">>>>>>>>, <<>>>>>> \o b.ss>>>>, Inner(ctx, b.ctx))
GStmt(ctx, c, p, d) ==
  LET r0 == Rnd(c, p, 100)  r == IF "clo" \in Feat /\ r0 \in 24..70 /\ (r0 % 3) < 2 THEN 74 + (r0 % 20) ELSE r0     \* clo: more closures
      vs == OfKind(ctx, KI)  on(x) == x \in Feat
      e(k) == GInt(ctx, c, Ch(p, k), d)  bl(q, l) == GSeq(ctx, c, Ch(p, q), d - 1, l)
      fs == Funs(ctx, KI)  hs == Funs(ctx, KF(0, 0, KI)) \o Funs(ctx, KF(1, 0, KI))
      ls == OfKind(ctx, KL)  ts == OfKind(ctx, KS)
      def == LET x == Fresh(ctx, c, Ch(p, 2))
                 res == IF d > 1 /\ Rnd(c, Ch(p, 5), 3) = 0 THEN Pick(c, Ch(p, 6), <<KF(0, 0, KI), KF(1, 0, KI)>>) ELSE KI
                 k == KF(Rnd(c, Ch(p, 3), 3), IF on("opt") THEN Rnd(c, Ch(p, 4), 3) ELSE 0, res)
             IN Stm(<<<<"def", x, GFn([ctx EXCEPT !.decl = @ \cup {x}], c, Ch(p, 7), d, k)>>>>, Add(ctx, x, k))
      inst == LET f == Pick(c, Ch(p, 2), hs)  x == Fresh(ctx, c, Ch(p, 3)) IN
              Stm(<<<<"set", x, <<"call", f.n, GArgs(f.k, ctx, c, Ch(p, 4), 1)>>>>>>, Add(ctx, x, f.k[4]))
      newi == LET x == Fresh(ctx, c, Ch(p, 2)) IN Stm(<<<<"set", x, e(3)>>>>, Add(ctx, x, KI))
  IN
  CASE r < 14 \/ (vs = <<>> /\ r < 50) -> newi
    [] r < 24 -> Stm(<<<<"set", Pick(c, Ch(p, 2), vs), e(3)>>>>, ctx)
    [] r < 28 -> Stm(<<<<"opset", Pick(c, Ch(p, 2), vs), Pick(c, Ch(p, 4), <<"+", "-", "*">>), e(3)>>>>, ctx)
    [] r < 40 -> Stm(<<SayInts(ctx, c, p, d)>>, ctx)
    [] r < 52 /\ d > 0 /\ on("if") ->
         LET a == bl(2, Len1(c, p))  b == GSeq(Inner(ctx, a.ctx), c, Ch(p, 3), d - 1, Rnd(c, Ch(p, 4), 3))
             f == GSeq(Inner(ctx, b.ctx), c, Ch(p, 8), d - 1, Rnd(c, Ch(p, 6), 3)) IN
         Stm(<<<<"if", <<<<GBool(ctx, c, Ch(p, 5), d), a.ss>>>> \o (IF b.ss = <<>> THEN <<>> ELSE <<<<GBool(ctx, c, Ch(p, 7), d - 1), b.ss>>>>), f.ss>>>>, Inner(ctx, f.ctx))
    [] r < 60 /\ d > 0 /\ on("jumps") -> GLoop(ctx, c, Ch(p, 2), d - 1)
    [] r < 60 /\ d > 0 /\ on("while") ->
         LET x == Fresh(ctx, c, Ch(p, 2))  in == [Add(ctx, x, <<"none">>) EXCEPT !.loop = TRUE, !.cnt = TRUE]
             b == GSeq(in, c, Ch(p, 3), d - 1, Len1(c, p))  top == Rnd(c, Ch(p, 4), 4) + 1
             bump == <<"opset", x, "+", <<"n", 1>>>> IN
         (IF Rnd(c, Ch(p, 5), 3) > 0
          THEN Stm(<<<<"set", x, <<"n", 0>>>>, <<"while", <<"op", "<", <<"v", x>>, <<"n", top>>>>, <<bump>> \o b.ss>>>>, Inner(ctx, b.ctx))
          ELSE Stm(<<<<"set", x, <<"n", 0>>>>, <<"loop", <<bump, <<"if", <<<<<<"op", ">", <<"v", x>>, <<"n", top>>>>, <<<<"break">>>>>>>>, <<>>>>>> \o b.ss>>>>, Inner(ctx, b.ctx)))
    [] r < 64 /\ d > 0 /\ on("block") -> Stm(<<<<"times", <<"n", Rnd(c, Ch(p, 2), 4)>>, GBlk(ctx, c, Ch(p, 3), d)>>>>, ctx)
    [] r < 67 /\ d > 0 /\ on("block") -> Stm(<<<<"to", <<"n", Rnd(c, Ch(p, 2), 4)>>, GInt(ctx, c, Ch(p, 4), 1), GBlk(ctx, c, Ch(p, 3), d)>>>>, ctx)
    [] r < 69 /\ d > 0 /\ on("block") -> Stm(<<<<"step", GInt(ctx, c, Ch(p, 2), 1), <<"n", Rnd(c, Ch(p, 4), 12)>>, <<"n", 1 + Rnd(c, Ch(p, 5), 4)>>, GBlk(ctx, c, Ch(p, 3), d)>>>>, ctx)
    [] r < 71 /\ ctx.loop -> Stm(<<<<"if", <<<<GBool(ctx, c, Ch(p, 2), 1), <<<<"break">>>>>>>>, <<>>>>>>, ctx)
    [] r < 73 /\ ctx.cnt -> Stm(<<<<"if", <<<<GBool(ctx, c, Ch(p, 2), 1), <<<<"cont">>>>>>>>, <<>>>>>>, ctx)
    [] r < 76 /\ ctx.fn /\ on("ret") -> Stm(<<<<"if", <<<<GBool(ctx, c, Ch(p, 2), 1), <<<<"ret", e(3)>>>>>>>>, <<>>>>>>, ctx)
    [] r < 86 /\ d > 0 /\ on("fn") -> def
    [] r < 91 /\ hs # <<>> -> inst
    [] r < 94 /\ fs # <<>> -> LET f == Pick(c, Ch(p, 2), fs) IN Stm(<<<<"do", <<"call", f.n, GArgs(f.k, ctx, c, Ch(p, 3), d)>>>>>>, ctx)
    [] r < 96 /\ on("str") -> IF ts = <<>> \/ Rnd(c, Ch(p, 5), 2) = 0
          THEN LET x == Fresh(ctx, c, Ch(p, 2)) IN Stm(<<<<"set", x, GStr(ctx, c, Ch(p, 3), 1)>>>>, Add(ctx, x, KS))
          ELSE IF Rnd(c, Ch(p, 4), 2) = 0 THEN Stm(<<<<"set", Pick(c, Ch(p, 2), ts), GStr(ctx, c, Ch(p, 3), 1)>>>>, ctx)
          ELSE Stm(<<<<"say", <<<<"v", Pick(c, Ch(p, 2), ts)>>, GStr(ctx, c, Ch(p, 3), 1)>>>>>>, ctx)
    [] r < 98 /\ on("list") -> IF ls = <<>> \/ Rnd(c, Ch(p, 5), 3) = 0
          THEN LET x == Fresh(ctx, c, Ch(p, 2)) IN Stm(<<<<"set", x, <<"lst", [i \in 1..(1 + Rnd(c, Ch(p, 6), 4)) |-> GInt(ctx, c, Ch(p, 10 + i), 1)]>>>>>>, Add(ctx, x, KL))
          ELSE LET l == <<"v", Pick(c, Ch(p, 2), ls)>> IN
               (CASE Rnd(c, Ch(p, 4), 3) = 0 -> Stm(<<<<"do", <<"msg", l, "push", <<e(3)>>>>>>>>, ctx)
                  [] Rnd(c, Ch(p, 4), 3) = 1 -> Stm(<<<<"say", <<l>>>>>>, ctx)
                  [] OTHER -> Stm(<<<<"do", <<"msg", l, "pop", <<>>>>>>>>, ctx))
    [] OTHER -> newi

(* --------------------------------- system --------------------------------- *)
G0 == [vars |-> <<>>, decl |-> {}, fn |-> FALSE, loop |-> FALSE, cnt |-> FALSE]
\* top level statements run in the environment of all top level variables assigned so far
RunTop(ss, s, env) == LET new == SetToSeq({x \in Assigned(ss): x \notin DOMAIN env})
                          n == New([s EXCEPT !.fuel = Fuel], env, new, Nils(Len(new)))
                      IN [m |-> ExecSeq(ss, n.env, n.s), env |-> n.env]
\* bfs states keep the environment in g.env
Init == LET r == RunTop(Prelude, M0, <<>>) IN prog = Prelude /\ m = [r.m EXCEPT !.val = N] /\ g = [G0 EXCEPT !.vars = <<>>] @@ [env |-> r.env, n |-> 0, ch |-> 0]
Put(ss, ctx) == LET r == RunTop(ss, m, g.env) IN
  IF r.m.ok /\ r.m.sig = "" /\ Len(r.m.cells) < 3000
  THEN prog' = prog \o ss /\ m' = [r.m EXCEPT !.val = N] /\ g' = [ctx EXCEPT !.env = r.env, !.n = g.n + 1]
  ELSE Mode = "sim" /\ UNCHANGED <<prog, m>> /\ g' = [g EXCEPT !.n = @ + 1]
Vec(k) == TLCEval([i \in 1..NV |-> RandomElement(k..(k + 999))])
Chunks == 64
Next == g.n < Depth /\
  IF Mode = "sim" THEN \E c \in {Vec(g.n - g.n)}: LET r == GStmt(g, c, c[1] + 1, Size) IN Put(r.ss, r.ctx)
  ELSE IF Len(Alphabet) > 64 /\ g.ch = 0 THEN \E k \in 1..Chunks: g' = [g EXCEPT !.ch = k] /\ UNCHANGED <<prog, m>>    \* lets the workers share the choices
  ELSE \E i \in 1..Len(Alphabet): (g.ch = 0 \/ i % Chunks = g.ch - 1) /\ Put(Alphabet[i], [g EXCEPT !.ch = 0])
Spec == Init /\ [][Next]_vars
Rec(st) == [src |-> Body(prog, 0, st), out |-> m.out]
\* every variable's final value is printed at the end
Final == LET vs == OfKind(g, KI) \o OfKind(g, KS) \o OfKind(g, KL)
             RECURSIVE All(_, _)
             All(i, s) == IF i > Len(vs) THEN s ELSE
               LET st == <<"say", <<<<"v", vs[i]>>>>>>  r == RunTop(<<st>>, [s.m EXCEPT !.fuel = Fuel], g.env) IN
               All(i + 1, IF r.m.ok THEN [m |-> r.m, p |-> Append(s.p, st)] ELSE s)
         IN IF Mode = "sim" THEN All(1, [m |-> m, p |-> prog]) ELSE LET r == RunTop(Finale, [m EXCEPT !.fuel = Fuel], g.env) IN [m |-> r.m, p |-> prog \o Finale]
Emit == g.n = Depth => LET f == TLCEval(Final)  st == IF Len(f.m.out) % 5 = 0 THEN "full" ELSE IF Len(f.m.out) % 5 = 1 THEN "grp" ELSE "min" IN
                       f.m.ok => PrintT(<<"@T", ToJson([src |-> Body(f.p, 0, st), out |-> f.m.out])>>)
WellFormed == m.ok /\ m.sig = "" /\ \A x \in DOMAIN g.env: g.env[x] \in 1..Len(m.cells)
=============================================================================
