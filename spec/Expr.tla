------------------------------- MODULE Expr -------------------------------
(* Expressions of potion: their texts (token sequences), the grouping the grammar
   prescribes, and the value of those over integers, truth values and nil.

   <<"n",k>> literal   <<"s",t>> string   <<"k","true"|"false"|"nil">>   <<"v",x>> variable
   <<"op",o,a,b>> binary, including "and" and "or"     <<"un",o,a>> not, ~, -
   <<"msg",a,m,args>> message to a value               <<"call",f,args>> call of the closure in variable f
   <<"inc",x,o,pre>> ++ and --                         <<"arg",x,e>> named argument x = e
   <<"fn",params,locals,body>> closure (body: statements, see Lang)
   <<"lst",es>> list literal                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Levels == <<0, 2, 3, 6, 7, 8, 9>>      \* binary operators; 1 is assignment, 10 unary and messages, 11 atoms
Ops(l) == CASE l = 0 -> {"or", "and"} [] l = 2 -> {"<=>", "==", "!="} [] l = 3 -> {"<", "<=", ">", ">="}
            [] l = 6 -> {"<<", ">>"} [] l = 7 -> {"+", "-"} [] l = 8 -> {"*", "/", "%"} [] OTHER -> {"**"}
Level(o) == CHOOSE l \in {0, 2, 3, 6, 7, 8, 9}: o \in Ops(l)
BinOps == UNION {Ops(l): l \in {0, 2, 3, 6, 7, 8, 9}}
Messages == {"abs", "string", "length"}

ELevel(e) == CASE e[1] = "op" -> Level(e[2]) [] e[1] = "un" -> 10 [] e[1] = "inc" -> 10
               [] e[1] = "msg" -> 10 [] e[1] = "arg" -> 1 [] OTHER -> 11

(* ------------------------------- rendering -------------------------------- *)
(* st: "min" parentheses only where needed, "full" around every operand, "grp" the |e. form
   br: the bracket allowed at this position: "(" where an operator's operand stands,
       "|" where parentheses would build a list                                        *)
RECURSIVE Toks(_, _, _, _)
RECURSIVE Args(_, _)
Args(es, st) == IF es = <<>> THEN <<>> ELSE
  Toks(Head(es), 0, "|", st) \o (IF Len(es) = 1 THEN <<>> ELSE <<",">> \o Args(Tail(es), st))
\* the receiver of a message: atoms, signs and messages stand for themselves
Recv(e, st) == IF ELevel(e) = 11 \/ e[1] = "msg" \/ (e[1] = "un" /\ e[2] = "-")
               THEN Toks(e, 10, "|", st) ELSE Toks(e, 12, "|", st)
\* parameters: <<x>> required, <<x,k>> with an integer default, <<x,":=",v>> with any default, <<x,"|",v,0>> optional without default
LitText(v) == CASE v[1] = "i" -> ToString(v[2]) [] v[1] = "s" -> "'" \o v[2] \o "'" [] v[1] = "n" -> "nil" [] OTHER -> IF v[2] THEN "true" ELSE "false"
ParamToks(ps) == [i \in 1..(IF ps = <<>> THEN 0 ELSE 2 * Len(ps) - 1) |->
                    IF i % 2 = 0 THEN (IF Len(ps[i \div 2 + 1]) = 4 /\ Len(ps[i \div 2]) < 4 THEN "|" ELSE ",") ELSE LET p == ps[(i + 1) \div 2] IN
                      CASE Len(p) = 2 -> p[1] \o ":=" \o ToString(p[2]) [] Len(p) = 3 -> p[1] \o ":=" \o LitText(p[3]) [] OTHER -> p[1]]
Toks(e, min, br, st) ==
  LET inner ==
    CASE e[1] = "n" -> <<ToString(e[2])>>
      [] e[1] = "s" -> <<"'" \o e[2] \o "'">>
      [] e[1] = "k" -> <<e[2]>>
      [] e[1] = "v" -> <<e[2]>>
      [] e[1] = "op" -> Toks(e[3], Level(e[2]), "(", st) \o <<e[2]>> \o Toks(e[4], Level(e[2]) + 1, "(", st)
      [] e[1] = "un" /\ e[2] = "-" -> <<"-">> \o Toks(e[3], 11, "(", st)
      [] e[1] = "un" -> <<e[2]>> \o Toks(e[3], 10, "(", st)
      [] e[1] = "inc" -> IF e[4] THEN <<e[3], e[2]>> ELSE <<e[2], e[3]>>
      [] e[1] = "msg" -> Recv(e[2], st) \o <<e[3]>> \o (IF e[4] = <<>> THEN <<>> ELSE <<"(">> \o Args(e[4], st) \o <<")">>)
      [] e[1] = "idx" -> <<e[2] \o "[" \o (IF e[3][1] = "n" THEN ToString(e[3][2]) ELSE e[3][2]) \o "]">>
      [] e[1] = "call" -> <<e[2], "(">> \o Args(e[3], st) \o <<")">>
      [] e[1] = "arg" -> <<e[2], "=">> \o Toks(e[3], 2, "|", st)
      [] e[1] = "lst" -> <<"(">> \o Args(e[2], st) \o <<")">>
      [] e[1] = "fn" -> <<"(">> \o ParamToks(e[2]) \o <<"):">> \o (IF e[4][1][1] = "opset" THEN <<e[4][1][2], e[4][1][3] \o "=">> \o Toks(e[4][1][4], 2, "|", st) ELSE Toks(e[4][1][2], 0, "|", st)) \o <<".">>
      [] OTHER -> Assert(FALSE, <<"no text for", e>>)
      par == ELevel(e) < min \/ (st = "full" /\ min > 2 /\ e[1] \in {"op", "un", "inc", "msg"})
  IN IF ~par THEN inner
     ELSE IF br = "(" /\ st # "grp" THEN <<"(">> \o inner \o <<")">> ELSE <<"|">> \o inner \o <<".">>

RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1]
            ELSE LET h == Len(ts) \div 2 IN Join(SubSeq(ts, 1, h)) \o " " \o Join(SubSeq(ts, h + 1, Len(ts)))

(* --------------------------------- parsing -------------------------------- *)
(* the grammar's rules over tokens: results [e |-> tree, r |-> remaining tokens]
   (literals and variables, operators, signs, argumentless messages, both groupings) *)
IsWord(t) == t \in {"x", "y", "z", "w"}
RECURSIVE PLevel(_, _)
RECURSIVE PMore(_, _, _)
RECURSIVE PUnary(_)
RECURSIVE PCalls(_)
RECURSIVE PAtom(_)
PLevel(i, s) == IF i > Len(Levels) THEN PUnary(s) ELSE LET p == PLevel(i + 1, s) IN PMore(i, p.e, p.r)
PMore(i, e, r) == IF r # <<>> /\ Head(r) \in Ops(Levels[i])
                  THEN LET b == PLevel(i + 1, Tail(r)) IN PMore(i, <<"op", Head(r), e, b.e>>, b.r)
                  ELSE [e |-> e, r |-> r]
PUnary(s) == CASE Head(s) \in {"not", "~"} -> LET a == PUnary(Tail(s)) IN PCalls([e |-> <<"un", Head(s), a.e>>, r |-> a.r])
               [] Head(s) = "-" -> LET a == PAtom(Tail(s)) IN PCalls([e |-> <<"un", "-", a.e>>, r |-> a.r])
               [] OTHER -> PCalls(PAtom(s))
PCalls(p) == IF p.r # <<>> /\ Head(p.r) \in Messages
             THEN PCalls([e |-> <<"msg", p.e, Head(p.r), <<>>>>, r |-> Tail(p.r)]) ELSE p
PAtom(s) == CASE Head(s) = "(" -> LET p == PLevel(1, Tail(s)) IN [e |-> p.e, r |-> Tail(p.r)]
              [] Head(s) = "|" -> LET p == PLevel(1, Tail(s)) IN [e |-> p.e, r |-> Tail(p.r)]
              [] Head(s) \in {"true", "false", "nil"} -> [e |-> <<"k", Head(s)>>, r |-> Tail(s)]
              [] IsWord(Head(s)) -> [e |-> <<"v", Head(s)>>, r |-> Tail(s)]
              [] OTHER -> [e |-> <<"n", CHOOSE k \in 0..99: ToString(k) = Head(s)>>, r |-> Tail(s)]
Parse(s) == PLevel(1, s).e

(* ---------------------------------- values -------------------------------- *)
(* <<"i",k>> <<"b",bool>> <<"n">> <<"s",text>> <<"c",closure>> <<"l",list>>; <<"E">>: no value this specification claims *)
I(k) == <<"i", k>>
B(b) == <<"b", b>>
N == <<"n">>
Err == <<"E">>
Truthy(x) == ~(x[1] = "n" \/ x = <<"b", FALSE>>)
Big == 20000
Abs(k) == IF k < 0 THEN -k ELSE k
Clip(k) == IF Abs(k) > Big THEN Err ELSE I(k)
Quot(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
IntOp(o, a, b) ==
  CASE o = "+" -> Clip(a + b) [] o = "-" -> Clip(a - b) [] o = "*" -> Clip(a * b)
    [] o = "/" -> IF b = 0 THEN Err ELSE I(Quot(a, b))
    [] o = "%" -> IF b = 0 THEN Err ELSE I(a - b * Quot(a, b))
    [] o = "**" -> IF b < 0 \/ b > 12 \/ Abs(a) > 20 \/ (Abs(a) > 2 /\ b > 3) THEN Err ELSE Clip(Pow(a, b))
    [] o = "<<" -> IF b < 0 \/ b > 14 THEN Err ELSE IF Abs(a) * Pow(2, b) > Big THEN Err ELSE I(a * Pow(2, b))
    [] o = ">>" -> IF b < 0 \/ b > 14 THEN Err ELSE I(a \div Pow(2, b))
    [] o = "<" -> B(a < b) [] o = "<=" -> B(a <= b) [] o = ">" -> B(a > b) [] o = ">=" -> B(a >= b)
    [] o = "<=>" -> I(IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
Apply2(o, x, y) ==
  IF x = Err \/ y = Err THEN Err
  ELSE IF o = "==" THEN B(x = y)
  ELSE IF o = "!=" THEN B(x # y)
  ELSE IF x[1] = "i" /\ y[1] = "i" THEN IntOp(o, x[2], y[2])
  ELSE IF x[1] = "s" /\ y[1] = "s" /\ o = "+" THEN (IF Len(x[2]) + Len(y[2]) > 60 THEN Err ELSE <<"s", x[2] \o y[2]>>)
  ELSE Err
Apply1(o, x) ==
  IF x = Err THEN Err
  ELSE IF o = "not" THEN B(~Truthy(x))
  ELSE IF x[1] # "i" THEN Err
  ELSE IF o = "-" THEN I(-x[2]) ELSE I(-x[2] - 1)
Answer(m, x) == IF x = Err THEN Err
                ELSE CASE m = "abs" -> (IF x[1] = "i" THEN I(Abs(x[2])) ELSE Err)
                       [] m = "string" -> (IF x[1] = "i" THEN <<"s", ToString(x[2])>> ELSE IF x[1] = "s" THEN x ELSE Err)
                       [] m = "length" -> (IF x[1] = "s" THEN I(Len(x[2])) ELSE Err)
                       [] OTHER -> Err
\* pure expressions over variables whose values env gives
RECURSIVE PureVal(_, _)
PureVal(e, env) ==
  CASE e[1] = "n" -> I(e[2]) [] e[1] = "s" -> <<"s", e[2]>>
    [] e[1] = "k" -> (CASE e[2] = "true" -> B(TRUE) [] e[2] = "false" -> B(FALSE) [] OTHER -> N)
    [] e[1] = "v" -> env[e[2]]
    [] e[1] = "op" /\ e[2] = "and" -> (LET a == PureVal(e[3], env) IN IF (a = Err \/ ~Truthy(a)) THEN a ELSE PureVal(e[4], env))
    [] e[1] = "op" /\ e[2] = "or" -> (LET a == PureVal(e[3], env) IN IF a = Err \/ Truthy(a) THEN a ELSE PureVal(e[4], env))
    [] e[1] = "op" -> Apply2(e[2], PureVal(e[3], env), PureVal(e[4], env))
    [] e[1] = "un" -> Apply1(e[2], PureVal(e[3], env))
    [] e[1] = "msg" -> Answer(e[3], PureVal(e[2], env))
    [] OTHER -> Err
Show(x) == CASE x[1] = "i" -> ToString(x[2]) [] x[1] = "b" -> (IF x[2] THEN "true" ELSE "false") [] x[1] = "n" -> "nil"
             [] x[1] = "s" -> x[2] [] OTHER -> "?"
=============================================================================
