-------------------------------- MODULE Alpha --------------------------------
(* Alphabets for the exhaustive exploration of Lang: control flow skeletons, closure
   histories, signatures and calls.                                                *)
EXTENDS Lang
LOCAL v(x) == <<"v", x>>
LOCAL n(k) == <<"n", k>>
op(o, a, b) == <<"op", o, a, b>>
set(x, e) == <<"set", x, e>>
inc(x) == <<"opset", x, "+", n(1)>>
mark(k) == set("t", op("%", op("+", op("*", v("t"), n(7)), n(k)), n(99991)))      \* records the path taken
brk == <<"break">>
cont == <<"cont">>
If1(c, a, b) == <<"if", <<<<c, a>>>>, b>>
If2(c, a, c2, a2, b) == <<"if", <<<<c, a>>, <<c2, a2>>>>, b>>
While(c, b) == <<"while", c, b>>
Say(xs) == <<"say", [i \in 1..Len(xs) |-> v(xs[i])]>>
Fun(ps, locals, b) == <<"fn", ps, locals, b>>
Do(e) == <<"do", e>>
CallE(f, as) == <<"call", f, as>>
Seqs(S, k) == UNION {[1..i -> S]: i \in 1..k}
FromSets(ss) == TLCEval(FoldLeft(LAMBDA a, S: a \o SetToSeq(S), <<>>, ss))        \* (a large \cup is slow)

(* ------------------------------ control flow ------------------------------ *)
CtlPrelude == <<set("t", n(1)), set("i", n(0)), set("j", n(0))>>
CtlFinale == <<Say(<<"t", "i", "j">>)>>
EqK(x, k) == op("==", v(x), n(k))
OddT == op("==", op("%", v("t"), n(2)), n(1))
Arms == {<<mark(2)>>, <<brk>>, <<cont>>, <<mark(3), brk>>}
Else == {<<>>, <<mark(4)>>, <<brk>>, <<cont>>}
Ifs(x) == {If1(c, a, b): c \in {EqK(x, 1), OddT}, a \in Arms, b \in Else}
Elsifs(x) == {If2(EqK(x, 1), a, OddT, b, e): a \in Arms, b \in Arms, e \in Else}
FewIfs(x) == {If1(c, a, b): c \in {EqK(x, 2), OddT}, a \in {<<mark(2)>>, <<brk>>, <<cont>>}, b \in {<<>>, <<mark(4)>>}}
\* one loop: every body of up to two items
OneWhile(its) == {<<While(op("<", v("i"), n(4)), <<inc("i")>> \o b)>>: b \in Seqs(its, 2)}
OneLoop(its) == {<<<<"loop", <<inc("i"), If1(op(">", v("i"), n(3)), <<brk>>, <<>>)>> \o b>>>>: b \in Seqs(its, 2)}
ElsifCtl == {<<While(op("<", v("i"), n(4)), <<inc("i")>> \o <<x>>)>>: x \in Elsifs("i")}
SmallItems == FewIfs("i") \cup {mark(5)}
BigItems == Ifs("i") \cup {mark(5)}
BigLoopItems == FewIfs("i") \cup Elsifs("i")
\* two nested loops, something before, inside and after the inner one
Inner2(b) == <<set("j", n(0)), While(op("<", v("j"), n(3)), <<inc("j")>> \o b)>>
Inner3(b) == <<set("j", n(0)), <<"loop", <<inc("j"), If1(op(">=", v("j"), n(3)), <<brk>>, <<>>)>> \o b>>>>
NestItems(x) == {<<>>, <<mark(6)>>} \cup {<<y>>: y \in FewIfs(x)}
Nested(As, Bs, Cs) == {<<While(op("<", v("i"), n(3)), <<inc("i")>> \o a \o b \o c)>>: a \in As, b \in Bs, c \in Cs}
SmallNest == Nested({<<>>, <<If1(EqK("i", 2), <<cont>>, <<>>)>>},
                    {Inner2(b): b \in NestItems("j")} \cup {Inner3(b): b \in NestItems("j")}, {<<mark(7)>>} \cup {<<y>>: y \in FewIfs("i")})
BigNest == Nested(NestItems("i"), {Inner2(b): b \in NestItems("j")} \cup {Inner3(b): b \in NestItems("j")}, NestItems("i"))
\* loops in functions left by return, blocks in loops
RetArms == {<<mark(2)>>, <<<<"ret", n(5)>>>>, <<brk>>}
FnLoops == {<<<<"def", "f", Fun(<<<<"n">>>>, <<"k">>, <<set("k", n(0)), While(op("<", v("k"), n(4)), <<inc("k"), If1(op("==", v("k"), v("n")), a, b)>> \o c), mark(8)>> \o d)>>,
               set("i", CallE("f", <<n(1)>>)), set("j", CallE("f", <<n(9)>>))>>
              : a \in RetArms, b \in {<<>>, <<mark(4)>>, <<<<"ret", v("k")>>>>}, c \in {<<>>, <<mark(6)>>, <<If1(OddT, <<<<"ret", v("t")>>>>, <<mark(9)>>)>>},
                d \in {<<Do(v("k"))>>, <<<<"ret", op("+", v("k"), v("n"))>>>>}}
Blks(b) == {<<"times", n(3), Fun(<<<<"x">>>>, <<>>, b)>>, <<"to", n(1), n(3), Fun(<<<<"x">>>>, <<>>, b)>>, <<"to", n(2), n(0), Fun(<<<<"x">>>>, <<>>, b)>>,
            <<"step", n(1), n(6), n(2), Fun(<<<<"x">>>>, <<>>, b)>>, <<"times", n(0), Fun(<<<<"x">>>>, <<>>, b)>>}
BlkBodies == {<<mark(1)>>, <<set("t", op("+", op("*", v("t"), n(3)), v("x")))>>, <<If1(EqK("x", 1), <<mark(2)>>, <<mark(3)>>)>>,
              <<set("i", n(0)), While(op("<", v("i"), v("x")), <<inc("i"), mark(4)>>)>>, <<inc("i"), If1(op("<", v("x"), n(2)), <<inc("j")>>, <<>>)>>}
BlkLoops == UNION {{<<b>>, <<While(op("<", v("j"), n(3)), <<inc("j"), If1(OddT, <<b>>, <<mark(5)>>)>>)>>}: b \in UNION {Blks(x): x \in BlkBodies}}
       \cup {<<<<"times", n(2), Fun(<<<<"x">>>>, <<>>, <<b>>)>>>>: b \in UNION {Blks(<<set("t", op("+", op("*", v("t"), n(3)), op("-", v("x"), v("i"))))>>)}}
\* conditions with effects and every mixture of and, or, not
Cnds == {EqK("i", 0), op("<", v("j"), n(1)), v("t"), <<"k", "nil">>, <<"inc", "i", "++", TRUE>>, <<"un", "not", v("t")>>, n(0)}
CndExprs == <<{op(o, a, b): o \in {"and", "or"}, a \in Cnds, b \in Cnds}, {op(o, op(p, a, b), c): o \in {"and", "or"}, p \in {"and", "or"}, a \in Cnds, b \in Cnds, c \in Cnds},
              {op(o, a, op(p, b, c)): o \in {"and", "or"}, p \in {"and", "or"}, a \in Cnds, b \in Cnds, c \in Cnds}>>
CndTests(k) == {<<If1(c, <<mark(1)>>, <<mark(2)>>), set("j", c)>>: c \in CndExprs[k]}
Quick06 == FromSets(<<ElsifCtl, OneWhile(SmallItems), OneLoop(SmallItems), SmallNest, FnLoops, BlkLoops, CndTests(1), CndTests(2), CndTests(3)>>)
Deep06 == FromSets(<<ElsifCtl, OneWhile(BigItems), OneLoop(BigLoopItems), BigNest, FnLoops, BlkLoops, CndTests(1), CndTests(2), CndTests(3)>>)


(* ------------------------------- closures --------------------------------- *)
call(f, k) == CallE(f, IF k = 0 THEN <<>> ELSE <<n(k)>>)
Def(f, fn) == <<"def", f, fn>>
Yield(fn) == <<"yield", fn>>
l1(x) == Do(x)
plus(a, b) == op("+", a, b)
\* A: three closures over one variable, two of them in outer variables
CloA == <<set("p", n(0)), set("q", n(0)), set("r", n(0)), set("s", n(0)), set("t", n(0)),
  Def("mk", Fun(<<<<"n">>>>, <<"c">>, <<set("c", v("n")),
     Def("p", Fun(<<<<"d">>>>, <<>>, <<set("c", plus(v("c"), v("d"))), l1(op("*", v("c"), n(2)))>>)),
     Def("q", Fun(<<>>, <<>>, <<l1(op("*", v("c"), n(10)))>>)),
     Yield(Fun(<<<<"d">>>>, <<>>, <<set("n", plus(v("n"), n(1))), set("c", op("-", v("c"), op("*", v("n"), v("d")))), l1(v("n"))>>))>>)),
  set("r", call("mk", 4))>>
AlphaA == << <<set("r", call("mk", 1))>>, <<set("t", call("mk", 30))>>, <<set("t", call("p", 2)), Say(<<"t">>)>>, <<set("t", call("q", 0)), Say(<<"t">>)>>,
             <<set("t", call("r", 3)), Say(<<"t">>)>>, <<set("s", v("p"))>>, <<set("s", v("r"))>>, <<set("t", call("s", 5)), Say(<<"t">>)>> >>
FinA == <<set("t", call("q", 0)), Say(<<"t">>)>>
\* B: three levels, every level's variable changed by the innermost
CloB == <<set("t", n(0)), set("x", n(0)), set("f", n(0)), set("g", n(0)), set("h", n(0)),
  Def("mk", Fun(<<<<"a">>>>, <<>>, <<
     Yield(Fun(<<<<"b">>>>, <<>>, <<set("a", plus(v("a"), n(1))),
        Yield(Fun(<<<<"c">>>>, <<>>, <<set("b", plus(v("b"), v("a"))), set("a", plus(v("a"), v("c"))), set("t", plus(v("t"), n(1))),
              l1(plus(op("*", v("a"), n(100)), v("b")))>>))>>))>>)),
  set("f", call("mk", 1)), set("g", call("f", 2)), set("h", call("f", 7))>>
AlphaB == << <<set("f", call("mk", 5))>>, <<set("g", call("f", 3))>>, <<set("h", call("f", 4))>>, <<set("h", v("g"))>>,
             <<set("x", call("g", 1)), Say(<<"x">>)>>, <<set("x", call("h", 2)), Say(<<"x">>)>> >>
FinB == <<set("x", call("g", 1)), Say(<<"x", "t">>), set("x", call("h", 1)), Say(<<"x", "t">>)>>
\* C: closures collected in a list: one instance per call of the block, one for all rounds of a while loop, one per recursive activation
Push(l, fn) == <<"do", <<"msg", v(l), "push", <<fn>>>>>>
CloC == <<set("l", <<"lst", <<n(0)>>>>), set("t", n(1)), set("x", n(0)), set("f", n(0)), set("g", n(0)), set("k", n(0)),
  <<"times", n(2), Fun(<<<<"i">>>>, <<"c">>, <<set("c", op("*", v("i"), n(2))),
      Push("l", Fun(<<<<"d">>>>, <<>>, <<<<"opset", "c", "+", v("d")>>>>)), Push("l", Fun(<<>>, <<>>, <<l1(plus(v("c"), plus(v("t"), v("i"))))>>))>>)>>,
  <<"while", op("<", v("k"), n(2)), <<<<"opset", "k", "+", n(1)>>, set("w", op("*", v("k"), n(7))), Push("l", Fun(<<<<"d">>>>, <<>>, <<<<"opset", "w", "+", v("d")>>>>))>>>>,
  Def("rec", Fun(<<<<"n">>>>, <<"c">>, <<set("c", op("*", v("n"), n(1000))), Push("l", Fun(<<<<"d">>>>, <<>>, <<<<"opset", "c", "+", v("d")>>>>)),
      If1(op(">", v("n"), n(1)), <<Do(CallE("rec", <<op("-", v("n"), n(1))>>))>>, <<>>), set("c", plus(v("c"), n(100))), l1(v("c"))>>)),
  Do(call("rec", 2))>>
At(f, i) == <<set(f, <<"msg", v("l"), "at", <<n(i)>>>>)>>
AlphaC == << At("f", 1), At("f", 2), At("f", 3), At("f", 5), At("f", 6), At("f", 7), At("f", 8), <<set("g", v("f"))>>,
             <<set("x", call("f", 1)), Say(<<"x">>)>>, <<set("x", call("g", 0)), Say(<<"x">>)>>, <<set("x", call("g", 3)), Say(<<"x">>)>>, <<Do(call("rec", 1))>> >>
FinC == <<set("f", <<"msg", v("l"), "at", <<n(4)>>>>), set("x", call("f", 0)), Say(<<"x", "w", "t">>)>>
\* D: closures passed as arguments, stored by other closures, replaced while running
CloD == <<set("s", n(0)), set("x", n(0)), set("y", n(0)), set("z", n(2)),
  Def("ap", Fun(<<<<"fn">>, <<"k">>>>, <<>>, <<l1(plus(CallE("fn", <<v("k")>>), op("*", CallE("fn", <<v("k")>>), n(100))))>>)),
  Def("add", Fun(<<<<"k">>>>, <<>>, <<set("z", plus(v("z"), v("k"))), l1(v("z"))>>)),
  Def("keep", Fun(<<<<"fn">>, <<"w">>>>, <<>>, <<Def("s", Fun(<<<<"k">>>>, <<>>, <<set("w", plus(v("w"), n(1))), l1(CallE("fn", <<plus(v("k"), v("w"))>>))>>)), l1(v("w"))>>)),
  Def("wrap", Fun(<<<<"fn">>>>, <<"m">>, <<set("m", n(0)), Yield(Fun(<<<<"k">>>>, <<>>, <<set("m", plus(v("m"), n(1))), l1(plus(CallE("fn", <<v("k")>>), v("m")))>>))>>)),
  set("y", CallE("wrap", <<v("add")>>)), Do(CallE("keep", <<v("add"), n(3)>>))>>
AlphaD == << <<set("x", CallE("ap", <<v("add"), n(1)>>)), Say(<<"x">>)>>, <<set("x", CallE("ap", <<v("y"), n(2)>>)), Say(<<"x">>)>>, <<set("x", CallE("ap", <<v("s"), n(1)>>)), Say(<<"x">>)>>,
             <<Do(CallE("keep", <<v("y"), n(10)>>))>>, <<Do(CallE("keep", <<v("s"), n(20)>>))>>, <<set("y", CallE("wrap", <<v("s")>>))>>, <<set("y", CallE("wrap", <<v("y")>>))>>, <<set("s", v("y"))>> >>
FinD == <<set("x", CallE("s", <<n(1)>>)), Say(<<"x", "z">>), set("x", CallE("y", <<n(1)>>)), Say(<<"x", "z">>)>>
\* E: functions and blocks inside one another, all changing the variables around them
CloE == <<set("a", n(1)), set("b", n(2)), set("x", n(0)),
  Def("blk", Fun(<<<<"n">>>>, <<"u">>, <<set("u", v("n")),
     <<"times", n(2), Fun(<<<<"i">>>>, <<>>, <<set("a", plus(v("a"), v("i"))), <<"times", n(2), Fun(<<<<"j">>>>, <<>>, <<set("u", plus(v("u"), op("*", v("j"), v("a")))), set("b", plus(v("b"), v("u")))>>)>>>>)>>,
     Def("a", Fun(<<>>, <<>>, <<l1(v("u"))>>)), set("u", plus(v("u"), CallE("a", <<>>))), set("a", v("u")), l1(plus(v("u"), v("b")))>>)),
  Def("shadow", Fun(<<<<"a">>>>, <<"q">>, <<set("a", plus(v("a"), n(1))), Def("q", Fun(<<<<"b">>>>, <<>>, <<set("a", plus(v("a"), v("b"))), set("b", n(0)), l1(v("a"))>>)), set("b", CallE("q", <<v("a")>>)), l1(plus(v("a"), v("b")))>>)),
  Def("bump", Fun(<<>>, <<>>, <<set("a", op("%", op("*", v("a"), n(3)), n(101))), set("b", op("-", v("b"), v("a")))>>))>>
AlphaE == << <<set("x", call("blk", 1)), Say(<<"x">>)>>, <<set("x", call("shadow", 5)), Say(<<"x">>)>>, <<Do(call("bump", 0))>>, <<set("a", v("b"))>>,
             <<set("b", CallE("shadow", <<v("a")>>))>>, <<<<"times", n(2), Fun(<<<<"a">>>>, <<>>, <<set("b", plus(v("b"), v("a"))), set("a", n(9))>>)>>>> >>
FinE == <<Say(<<"a", "b", "x">>)>>

\* F: l[i] in closures, the list and the index from every level
Ix(l, i) == <<"idx", l, i>>
CloF == <<set("l", <<"lst", <<n(5), n(6), n(7), n(8)>>>>), set("i", n(1)), set("x", n(0)), set("f", n(0)), set("g", n(0)),
  Def("at", Fun(<<<<"k">>>>, <<>>, <<Yield(Fun(<<>>, <<>>, <<l1(plus(op("*", Ix("l", v("k")), n(100)), Ix("l", v("i"))))>>))>>)),
  Def("of", Fun(<<<<"l">>, <<"j">>>>, <<>>, <<Yield(Fun(<<<<"i">>>>, <<>>, <<set("j", Ix("l", v("j"))), Yield(Fun(<<>>, <<>>, <<l1(plus(plus(Ix("l", v("i")), op("*", n(100), Ix("l", n(-1)))), op("*", n(10), v("j"))))>>))>>))>>)),
  Def("upd", Fun(<<<<"k">>>>, <<>>, <<Do(<<"msg", v("l"), "put", <<v("k"), plus(Ix("l", v("k")), Ix("l", n(0)))>>>>), l1(Ix("l", v("k")))>>)),
  set("f", call("at", 2)), set("g", CallE("of", <<<<"lst", <<n(2), n(0), n(1)>>>>, n(1)>>))>>
AlphaF == << <<set("f", call("at", 3))>>, <<set("f", CallE("at", <<<<"n", -2>>>>))>>, <<set("i", n(3))>>, <<set("i", <<"n", -1>>)>>, <<set("g", CallE("of", <<v("l"), v("i")>>))>>,
             <<set("g", CallE("of", <<<<"lst", <<n(2), n(0), n(1)>>>>, n(2)>>))>>, <<set("x", CallE("f", <<>>)), Say(<<"x">>)>>, <<set("x", CallE("g", <<n(1)>>)), set("x", CallE("x", <<>>)), Say(<<"x">>)>>, <<set("x", call("upd", 1)), Say(<<"x">>)>>,
             <<<<"times", n(2), Fun(<<<<"i">>>>, <<>>, <<set("x", Ix("l", v("i"))), Say(<<"x", "i">>)>>)>>>> >>
FinF == <<Say(<<"l", "i">>), <<"say", <<Ix("l", n(0)), Ix("l", n(-1)), Ix("l", v("i"))>>>>>>


(* -------------------------- parameters and calls --------------------------- *)
PN4 == <<"x", "y", "z", "w">>
Params4(nr, no, kind) == [i \in 1..(nr + no) |-> IF i <= nr THEN <<PN4[i]>> ELSE
   CASE kind = "int" -> <<PN4[i], 70 + i>> [] kind = "bar" -> <<PN4[i], "|", N, 0>>
     [] kind = "val" -> <<PN4[i], ":=", <<<<"s", "ab">>, B(TRUE), N, <<"s", "w">>>>[i]>>
     [] OTHER -> <<PN4[i], ":=", <<I(58), I(124), <<"s", "x">>, I(58)>>[i]>>]      \* values the encoding of signatures uses as markers, names of parameters
Sigs == {Params4(c[1], c[2], c[3]): c \in {c \in (0..3) \X (0..3) \X {"int", "val", "mark", "bar"}: c[1] + c[2] <= 4 /\ (c[3] # "bar" \/ c[1] > 0)}}
Req(ps) == Len(SelectSeq(ps, LAMBDA p: Len(p) = 1))
PV(ps) == [i \in 1..Len(ps) |-> v(ps[i][1])]
DefF(f, ps) == <<"def", f, Fun(ps, <<>>, IF ps = <<>> THEN <<Do(n(42))>> ELSE <<<<"say", PV(ps)>>, Do(<<"lst", PV(ps)>>)>>)>>
\* argument lists: k positional, or every parameter supplied and those after the k-th by name in any order
ArgVal(i, base) == n(base + i)
Perms(S) == {p \in [1..Cardinality(S) -> S]: \A i, j \in 1..Cardinality(S): i # j => p[i] # p[j]}
PosCalls(ps, base) == {[i \in 1..k |-> ArgVal(i, base)]: k \in Req(ps)..Len(ps)}
NamedCalls(ps, base) == UNION {{[i \in 1..Len(ps) |-> IF i <= k THEN ArgVal(i, base) ELSE <<"arg", ps[p[i - k]][1], ArgVal(p[i - k], base)>>]
                                : p \in {[j \in 1..(Len(ps) - k) |-> q[j]]: q \in Perms((k + 1)..Len(ps))}}: k \in 0..(Len(ps) - 1)}
Calls(ps, base) == PosCalls(ps, base) \cup NamedCalls(ps, base)
Few(ps, base) == PosCalls(ps, base) \cup {c \in NamedCalls(ps, base): Len(ps) <= 2 \/ c[Len(ps)][2] = ps[Len(ps)][1] \/ (c[1][1] = "arg" /\ c[1][2] = ps[Len(ps)][1])}
SayE(e) == <<"say", <<e>>>>
ArityOf(f) == <<"say", <<<<"msg", v(f), "arity", <<>>>>, <<"msg", v(f), "minargs", <<>>>>>>>>
\* calls as arguments of calls, in operators, with temporaries around them
ArgShapes(e) == {<<SayE(e)>>, <<<<"say", <<n(1), e, e, n(2)>>>>>>, <<set("r", e), Say(<<"r">>)>>, <<set("r", <<"lst", <<e, n(5), e>>>>), Say(<<"r">>)>>,
                 <<SayE(op("+", n(1), op("*", <<"msg", e, "length", <<>>>>, op("+", <<"msg", e, "length", <<>>>>, n(2)))))>>,
                 <<Def("h", Fun(<<<<"q">>>>, <<"m">>, <<set("m", e), Do(<<"lst", <<v("q"), v("m"), e>>>>)>>)), SayE(call("h", 9)), SayE(call("h", 8))>>,
                 <<If1(e, <<SayE(e)>>, <<>>)>>, <<<<"times", n(2), Fun(<<<<"i">>>>, <<>>, <<SayE(e)>>)>>>>}
Nest(ps, as, e, i) == [j \in 1..Len(as) |-> IF j # i THEN as[j] ELSE IF as[j][1] = "arg" THEN <<"arg", as[j][2], e>> ELSE e]
NestArgs == {op("-", op("*", n(3), n(4)), op("%", n(7), n(2))), <<"lst", <<n(1), n(2)>>>>}
\* the choices are transitions: g.vars holds the parameters, g.decl the call
Par1 == \E ps \in Sigs: Put(<<DefF("f", ps), ArityOf("f")>>, [g EXCEPT !.vars = ps])
\* two calls one after the other, then the first again
AllPairs == g.n < 4 /\
  LET ps == g.vars IN
  CASE g.n = 0 -> Par1
    [] g.n = 1 -> \E a \in Calls(ps, 10): Put(<<SayE(CallE("f", a))>>, [g EXCEPT !.decl = a])
    [] g.n = 2 -> \E b \in (IF Size = 1 THEN Few(ps, 20) ELSE Calls(ps, 20)): Put(<<SayE(CallE("f", b))>>, g)
    [] OTHER -> Put(<<SayE(CallE("f", g.decl))>>, g)
\* arguments which are calls, lists, operators; the call at every place
AllNests == g.n < 4 /\
  LET ps == g.vars IN
  CASE g.n = 0 -> Par1
    [] g.n = 1 -> ps # <<>> /\ (Size > 1 \/ Len(ps) <= 2) /\ \E a \in Few(ps, 10): a # <<>> /\ Put(<<>>, [g EXCEPT !.decl = a])
    [] g.n = 2 -> \E e \in NestArgs \cup {CallE("f", bs): bs \in Few(ps, 20)}, i \in 1..Len(g.decl):
                  Put(<<>>, [g EXCEPT !.decl = Nest(ps, g.decl, e, i)])
    [] OTHER -> \E s \in ArgShapes(CallE("f", g.decl)): Put(s, g)
PairSpec == Init /\ [][AllPairs]_vars
NestSpec == Init /\ [][AllNests]_vars
=============================================================================
