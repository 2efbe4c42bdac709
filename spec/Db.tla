---------------------------------- MODULE Db ----------------------------------
(* Databases: files of tables, connections to them, statements and what they hand to a callback.
   A row is <<a, b>>; a is <<>> (NULL) or <<n>>, b is 0 (NULL) or the place of a text in the list of texts, which is in order. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS NTexts, Depth, Files, NConn
VARIABLES files, conn, log, n
vars == <<files, conn, log, n>>
Tables == {"t", "u"}
None == <<"none">>
Rows(d, t) == d[t][2]
Has(d, t) == d[t] # None
Tab(rows) == <<"rows", rows>>
Holds(c, r) == CASE c[1] = "all" -> TRUE [] c[1] = "eq" -> r[1] = <<c[2]>> [] c[1] = "gt" -> r[1] # <<>> /\ r[1][1] > c[2]
  [] c[1] = "null" -> r[2] = 0 [] c[1] = "b" -> r[2] = c[2] [] c[1] = "anull" -> r[1] = <<>>
AKey(r) == IF r[1] = <<>> THEN -99 ELSE r[1][1]
\* rows sorted by a key, keeping the order of equal ones
Sort(rs, key(_)) == FoldLeft(LAMBDA acc, r: LET k == Cardinality({i \in 1..Len(acc): key(acc[i]) <= key(r)}) IN SubSeq(acc, 1, k) \o <<r>> \o SubSeq(acc, k + 1, Len(acc)), <<>>, rs)
Ordered(rs, o) == CASE o = "" -> rs [] o = "desc" -> Sort(rs, LAMBDA r: -AKey(r)) [] o = "b" -> Sort(rs, LAMBDA r: r[2])
Sum(rs) == FoldLeft(LAMBDA acc, r: IF r[1] = <<>> THEN acc ELSE IF acc = <<>> THEN r[1] ELSE <<acc[1] + r[1][1]>>, <<>>, rs)
Result(rs, form) == CASE form \in {"ab", "star"} -> rs [] form = "b" -> [i \in 1..Len(rs) |-> <<rs[i][2]>>] [] form = "agg" -> <<<<Len(rs), Sum(rs)>>>>
(* one statement on a connection: [d |-> database, save |-> what a rollback gives (<<>>: no transaction), ok, rows (with their form)] *)
Bad(s) == [s EXCEPT !.ok = FALSE]
Stmt(s, q) == LET d == s.d IN
  CASE q[1] = "create" -> IF Has(d, q[2]) THEN Bad(s) ELSE [s EXCEPT !.d[q[2]] = Tab(<<>>)]
    [] q[1] = "drop" -> IF ~Has(d, q[2]) THEN Bad(s) ELSE [s EXCEPT !.d[q[2]] = None]
    [] q[1] = "ins" -> IF ~Has(d, q[2]) THEN Bad(s) ELSE [s EXCEPT !.d[q[2]] = Tab(Rows(d, q[2]) \o q[3])]
    [] q[1] = "del" -> IF ~Has(d, q[2]) THEN Bad(s) ELSE [s EXCEPT !.d[q[2]] = Tab(SelectSeq(Rows(d, q[2]), LAMBDA r: ~Holds(q[3], r)))]
    [] q[1] = "upd" -> IF ~Has(d, q[2]) THEN Bad(s) ELSE [s EXCEPT !.d[q[2]] = Tab([i \in 1..Len(Rows(d, q[2])) |-> LET r == Rows(d, q[2])[i] IN IF Holds(q[4], r) THEN <<r[1], q[3]>> ELSE r])]
    [] q[1] = "sel" -> IF ~Has(d, q[2]) THEN Bad(s) ELSE [s EXCEPT !.rows = @ \o LET x == Result(Ordered(SelectSeq(Rows(d, q[2]), LAMBDA r: Holds(q[4], r)), q[5]), q[3]) IN [i \in 1..Len(x) |-> <<q[3], x[i]>>]]
    [] q[1] = "begin" -> IF s.save # <<>> THEN Bad(s) ELSE [s EXCEPT !.save = <<d>>]
    [] q[1] = "commit" -> IF s.save = <<>> THEN Bad(s) ELSE [s EXCEPT !.save = <<>>]
    [] q[1] = "rollback" -> IF s.save = <<>> THEN Bad(s) ELSE [s EXCEPT !.d = s.save[1], !.save = <<>>]
    [] OTHER -> Bad(s)
Run(s, qs) == FoldLeft(LAMBDA acc, q: IF acc.ok THEN Stmt(acc, q) ELSE acc, s, qs)

Rnd(T) == RandomElement(T)
Empty == [t \in Tables |-> None]
Init == files = [f \in Files |-> Empty] /\ conn = [c \in 1..NConn |-> [file |-> "", save |-> <<>>]] /\ log = <<>> /\ n = 0
\* while one connection has a transaction open the others leave the file alone
Free(c, f) == \A o \in 1..NConn: o # c => (conn[o].file # f \/ conn[o].save = <<>>)
Log(c, op, r) == log' = Append(log, <<c, op, r>>)
\* closing drops what was not committed
Closed(c) == IF conn[c].save = <<>> THEN files ELSE [files EXCEPT ![conn[c].file] = conn[c].save[1]]
Open(c) == \E f \in {Rnd(Files)}: Free(c, f) /\ files' = Closed(c) /\ conn' = [conn EXCEPT ![c] = [file |-> f, save |-> <<>>]] /\ Log(c, <<IF \E i \in 1..Len(log): log[i][1] = c THEN "open" ELSE "new", f>>, <<"self">>)
Close(c) == files' = Closed(c) /\ conn' = [conn EXCEPT ![c] = [file |-> "", save |-> <<>>]] /\ Log(c, <<"close">>, <<"self">>)
IsOpen(c) == UNCHANGED <<files, conn>> /\ Log(c, <<"open?">>, <<"bool", conn[c].file # "">>)
Row(x) == <<IF Rnd(1..(6 + 0 * x)) = 1 THEN <<>> ELSE <<Rnd(0..3)>>, Rnd(0..NTexts)>>
Cond(x) == LET k == Rnd(1..(8 + 0 * x)) IN CASE k <= 3 -> <<"all">> [] k = 4 -> <<"eq", Rnd(0..3)>> [] k = 5 -> <<"gt", Rnd(0..3)>> [] k = 6 -> <<"null">> [] k = 7 -> <<"b", Rnd(1..NTexts)>> [] OTHER -> <<"anull">>
Query(x) == LET k == Rnd(1..(16 + 0 * x)) t == Rnd({"t", "t", "u"}) IN
  CASE k \in {1, 2} -> <<"create", t>> [] k = 3 -> IF Rnd(1..3) = 1 THEN <<"drop", t>> ELSE <<"create", t>>
    [] k \in {4, 5, 6, 7} -> <<"ins", t, [i \in 1..Rnd(1..3) |-> Row(x + i)]>>
    [] k = 8 -> <<"del", t, Cond(x)>> [] k = 9 -> <<"upd", t, Rnd(0..NTexts), Cond(x)>>
    [] k = 10 -> <<Rnd({"begin", "commit", "rollback", "begin"})>>
    [] k = 11 -> <<"wrong">>
    [] OTHER -> <<"sel", t, Rnd({"ab", "star", "b", "agg"}), Cond(x), Rnd({"", "desc", "b"})>>
\* no query order with a grouping result; one transaction statement is not mixed with others
Fine(q) == ~(q[1] = "sel" /\ q[3] = "agg" /\ q[5] # "")
Do(c, how, qs) == LET f == conn[c].file IN
  IF f = "" THEN UNCHANGED <<files, conn>> /\ Log(c, <<how, qs>>, IF how = "gettable" THEN <<"nil">> ELSE <<"err", <<>>>>)
  ELSE /\ Free(c, f)
       /\ LET s == Run([d |-> files[f], save |-> conn[c].save, ok |-> TRUE, rows |-> <<>>], qs) IN
          /\ files' = [files EXCEPT ![f] = s.d] /\ conn' = [conn EXCEPT ![c].save = s.save]
          /\ Log(c, <<how, qs>>, <<IF s.ok THEN "ok" ELSE "err", IF how = "silent" THEN <<>> ELSE s.rows>>)
\* a callback that inserts a row into the other table for every row it is given
Nest(c, q) == LET f == conn[c].file IN f # "" /\ Free(c, f) /\ q[1] = "sel" /\ q[2] = "t" /\ Has(files[f], "t") /\ Has(files[f], "u")
  /\ LET s == Stmt([d |-> files[f], save |-> <<>>, ok |-> TRUE, rows |-> <<>>], q) IN
     /\ files' = [files EXCEPT ![f].u = Tab(@[2] \o [i \in 1..Len(s.rows) |-> <<<<9>>, 1>>])] /\ UNCHANGED conn /\ Log(c, <<"nest", <<q>>>>, <<"ok", s.rows>>)
Step(x) == \E c \in {Rnd(1..NConn)}, k \in {Rnd(1..(20 + 0 * x))}:
  IF ~\E i \in 1..Len(log): log[i][1] = c THEN Open(c)
  ELSE CASE k = 1 -> Open(c) [] k = 2 -> Close(c) [] k = 3 -> IsOpen(c)
    [] k \in {4, 5} -> \E q \in {Query(x)}: Nest(c, q)
    [] k \in {6, 7} -> \E q \in {Query(x)}: Fine(q) /\ Do(c, "gettable", <<q>>)
    [] k \in {8, 9} -> \E qs \in {[i \in 1..Rnd(2..3) |-> Query(x + i)]}: (\A i \in 1..Len(qs): Fine(qs[i])) /\ Do(c, "exec", qs)
    [] k = 10 -> \E q \in {Query(x)}: Fine(q) /\ Do(c, "silent", <<q>>)
    [] OTHER -> \E q \in {Query(x)}: Fine(q) /\ Do(c, "exec", <<q>>)
Next == n < Depth /\ n' = n + 1 /\ \E t \in 1..4: Step(n + t)
Spec == Init /\ [][Next]_vars
(* only the connection's own file changes, and at most one *)
OneFile == [][Cardinality({f \in Files: files'[f] # files[f]}) <= 1]_vars
\* at the end everything is closed
Final == [f \in Files |-> FoldLeft(LAMBDA d, c: IF conn[c].file = f /\ conn[c].save # <<>> THEN conn[c].save[1] ELSE d, files[f], [i \in 1..NConn |-> i])]
Emit == (n = Depth) => PrintT(<<"@P", ToJson([l |-> log, f |-> Final])>>)
=============================================================================
