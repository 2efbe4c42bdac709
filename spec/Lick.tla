-------------------------------- MODULE Lick --------------------------------
(* The data notation.  A reader with a stack of open lists goes through the tokens of a notation; every
   token sequence it accepts denotes the tree it has built.  Show gives the text a tree is printed as.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Mode, MaxToks, MaxDeep, Names, Quoted, Words, Ints, Attrs
VARIABLES toks, stack
vars == <<toks, stack>>
None == <<>>
Item(w) == [name |-> w, text |-> None, attr |-> None, sub |-> None]
Level == [items |-> <<>>, cur |-> None, phase |-> "start"]     \* phase: what the current item has so far
Topp(st) == st[Len(st)]
Set(st, f) == Append(Front(st), f)
CanSep(st) == Topp(st).phase \in {"name", "attr", "body", "word", "done"}
Push(f) == f.items \o f.cur
\* the reader; <<>> when the token cannot stand here
Read1(st, t) == IF st = <<>> THEN <<>> ELSE LET f == Topp(st) p == f.phase IN
  CASE t[1] = "name" -> IF p \in {"start", "sep"} THEN Set(st, [f EXCEPT !.cur = <<Item(t[2])>>, !.phase = "name"]) ELSE <<>>
    [] t[1] \in {"str", "int", "word"} -> IF p \in {"name", "attr"}
         THEN Set(st, [f EXCEPT !.cur[1].text = t, !.phase = IF t[1] = "word" \/ p = "attr" THEN "done" ELSE "body"]) ELSE <<>>
    [] t[1] = "attr" -> IF p \in {"name", "body"} THEN Set(st, [f EXCEPT !.cur[1].attr = <<t[2]>>, !.phase = IF p = "name" THEN "attr" ELSE "done"]) ELSE <<>>
    [] t[1] = "open" -> IF p \in {"name", "attr"} THEN Append(st, Level) ELSE <<>>
    [] t[1] = "close" -> IF Len(st) < 2 \/ p \in {"start"} THEN <<>> ELSE
         LET st2 == Front(st) g == Topp(st2) IN
         Set(st2, [g EXCEPT !.cur[1].sub = <<Push(f)>>, !.phase = IF g.phase = "attr" THEN "done" ELSE "body"])
    [] t[1] = "sep" -> IF CanSep(st) THEN Set(st, [f EXCEPT !.items = Push(f), !.cur = None, !.phase = "sep"]) ELSE <<>>
Read(ts) == FoldLeft(LAMBDA st, t: Read1(st, t), <<Level>>, ts)
Tree(st) == Push(st[1])
Complete(st) == Len(st) = 1 /\ st[1].phase /= "start"

(* text of a notation; the spacing is that of the examples in the documentation *)
TokText(t) == CASE t[1] = "name" -> t[2] [] t[1] = "str" -> " '" \o t[2] \o "'" [] t[1] = "int" -> " " \o ToString(t[2]) [] t[1] = "word" -> " " \o t[2]
  [] t[1] = "attr" -> " (" \o t[2].src \o ")" [] t[1] = "open" -> " [" [] t[1] = "close" -> "]" [] t[1] = "sep" -> ", "
Text(ts) == "[" \o FoldLeft(LAMBDA s, t: s \o TokText(t), "", ts) \o "]"
Join(q) == FoldLeftDomain(LAMBDA s, i: (IF i = 1 THEN "" ELSE s \o ", ") \o q[i], "", q)
ValText(t) == CASE t[1] = "int" -> ToString(t[2]) [] OTHER -> t[2]
TextOf(t) == IF t = None \/ t[1] = "int" THEN "nil" ELSE t[2]    \* text: only texts
RECURSIVE ShowList(_), ShowItem(_)
ShowItem(it) == it.name \o (IF it.sub /= None THEN " " \o ShowList(it.sub[1]) ELSE IF it.text /= None THEN " " \o ValText(it.text) ELSE "")
                \o (IF it.attr /= None THEN " " \o it.attr[1].show ELSE "")
ShowList(its) == "[" \o Join([i \in 1..Len(its) |-> ShowItem(its[i])]) \o "]"
\* one line per item, outer before inner: depth, name, text, number of inner items, attribute k, printed attribute
RECURSIVE Walk(_, _)
Walk(its, d) == FlattenSeq([i \in 1..Len(its) |-> LET it == its[i] IN
  <<"(" \o Join(<<ToString(d), it.name, IF it.sub = None THEN TextOf(it.text) ELSE "nil", IF it.sub = None THEN "0" ELSE ToString(Len(it.sub[1])),
     IF it.attr = None THEN "nil" ELSE it.attr[1].k, IF it.attr = None THEN "nil" ELSE it.attr[1].all>>) \o ")">> \o (IF it.sub = None THEN <<>> ELSE Walk(it.sub[1], d + 1))])
(* printed trees are notations again when their texts are numbers, or single words at the end of an item *)
RECURSIVE Plain(_), Toks(_)
Plain(its) == \A i \in 1..Len(its): LET it == its[i] IN
  /\ it.attr = None \/ it.attr[1].plain
  /\ it.text = None \/ it.text[1] = "int" \/ (it.text[1] = "word" /\ it.attr = None)
  /\ it.sub = None \/ Plain(it.sub[1])
Toks(its) == FlattenSeq([i \in 1..Len(its) |-> LET it == its[i] IN (IF i > 1 THEN <<<<"sep">>>> ELSE <<>>) \o <<<<"name", it.name>>>>
  \o (IF it.sub /= None THEN <<<<"open">>>> \o Toks(it.sub[1]) \o <<<<"close">>>> ELSE IF it.text /= None THEN <<it.text>> ELSE <<>>)
  \o (IF it.attr /= None THEN <<<<"attr", [it.attr[1] EXCEPT !.src = it.attr[1].psrc]>>>> ELSE <<>>)])

Alphabet == {<<"name", w>>: w \in Names} \cup {<<"str", s>>: s \in Quoted} \cup {<<"word", s>>: s \in Words} \cup {<<"int", i>>: i \in Ints}
            \cup {<<"attr", a>>: a \in Attrs} \cup {<<"open">>, <<"close">>, <<"sep">>}
Init == toks = <<>> /\ stack = <<Level>>
Take(t) == LET s == Read1(stack, t) IN s /= <<>> /\ Len(s) <= MaxDeep /\ stack' = s /\ toks' = Append(toks, t)
Kinds == {"name", "name", "str", "word", "int", "attr", "open", "close", "sep"}
Pick(k) == LET S == {t \in Alphabet: t[1] = k} IN IF S = {} THEN <<"none">> ELSE RandomElement(S)
\* random: kinds that fit, openings rather than closings at first
Room == MaxToks - Len(toks)
Next == /\ Len(toks) < MaxToks
        /\ IF Mode = "bfs" THEN \E t \in Alphabet: Take(t)
           ELSE \E n \in 1..3: \E k \in (IF Room <= Len(stack) + 1 /\ Topp(stack).phase /= "start" /\ Len(stack) > 1 /\ Topp(stack).phase /= "sep" THEN {"close"}
                            ELSE IF Room <= 2 * Len(stack) + 4 THEN {"name", "sep", "close"} ELSE Kinds):
                  \E t \in {TLCEval(Pick(k))}: t[1] # "none" /\ Take(t)
Spec == Init /\ [][Next]_vars
\* the machine's tree is the one its notation denotes, and printing a plain tree gives a notation of the same tree
Denotes == Read(toks) = stack
ReadsBack == Complete(stack) /\ Plain(Tree(stack)) =>
   LET its == Tree(stack) ts == Toks(its) st == Read(ts) IN
     Complete(st) /\ Text(ts) = ShowList(its) /\ ShowList(Tree(st)) = ShowList(its) /\ Walk(Tree(st), 0) = Walk(its, 0)
Rec == LET tr == Tree(stack) IN [src |-> [i \in 1..Len(toks) |-> TokText(toks[i])], show |-> ShowList(tr), walk |-> Walk(tr, 0), plain |-> Plain(tr)]
Emit == (Complete(stack) /\ (Mode = "bfs" => toks[Len(toks)][1] /= "sep" /\ Len(toks) >= MaxToks - 2) /\ (Mode = "sim" => Room = 0)) => PrintT(<<"@K", ToJson(Rec)>>)
=============================================================================
