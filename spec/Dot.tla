-------------------------------- MODULE Dot ---------------------------------
(* Reads the part of the DOT language a drawing of a tree needs.             *)
(* A graph: nodes [id, label], edges [from, to] in order.                    *)
EXTENDS Integers, Sequences, Text

IdC(c) == IsLetter(c) \/ IsDigit(c) \/ c = 95 \/ c >= 128
RECURSIVE IdStop(_, _), DotStr(_, _, _)
IdStop(s, i) == IF i <= Len(s) /\ IdC(s[i]) THEN IdStop(s, i + 1) ELSE i
\* the inside of a quoted string: only \" is an escape
DotStr(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> FALSE]
  ELSE IF s[i] = 34 THEN [ok |-> TRUE, v |-> acc, i |-> i + 1]
  ELSE IF s[i] = 92 /\ At(s, i + 1) = 34 THEN DotStr(s, i + 2, Append(acc, 34))
  ELSE IF s[i] = 92 /\ At(s, i + 1) = 92 THEN DotStr(s, i + 2, acc \o <<92, 92>>)
  ELSE DotStr(s, i + 1, Append(acc, s[i]))

DotKeywords == {Txt("node"), Txt("edge"), Txt("graph"), Txt("digraph"), Txt("subgraph"), Txt("strict")}
Digraph == Txt("digraph")
DTok(k, v) == [k |-> k, v |-> v]
\* (TLC looks names up in the whole stack of calls: long texts are read by folds)
\* st: i - the next place to read, out - the tokens so far
DotStep(s, st, i) ==
  IF i < st.i THEN st
  ELSE LET c == s[i]
           tok(k, v, e) == [i |-> e, out |-> Append(st.out, DTok(k, v))]
       IN
    IF IsSpaceC(c) THEN [st EXCEPT !.i = i + 1]
    ELSE IF c = 34 THEN LET q == DotStr(s, i + 1, <<>>)
                        IN IF q.ok THEN tok("id", q.v, q.i) ELSE tok("bad", <<>>, Len(s) + 1)
    ELSE IF IdC(c) THEN LET e == IdStop(s, i)
                            w == SubSeq(s, i, e - 1)
                            num == \A j \in 1..Len(w) : IsDigit(w[j])
                        IN IF IsDigit(c) /\ ~num THEN tok("bad", <<>>, e)
                           ELSE tok(IF Low(w) \in DotKeywords THEN "kw" ELSE "id", w, e)
    ELSE IF c = 45 /\ At(s, i + 1) = 62 THEN tok("->", <<>>, i + 2)
    ELSE tok(CASE c = 91 -> "[" [] c = 93 -> "]" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 44 -> ","
               [] c = 59 -> ";" [] c = 61 -> "=" [] OTHER -> "bad", <<>>, i + 1)
DotLex(s) == LET r == Fold(LAMBDA st, i : DotStep(s, st, i), [i |-> 1, out |-> <<>>], [i \in 1..Len(s) |-> i])
             IN Append(r.out, DTok("end", <<>>))

\* attributes after "[": the label (or <<>>)
RECURSIVE DAttrs(_, _, _)
DAttrs(t, i, lab) ==
  CASE t[i].k = "]" -> [ok |-> TRUE, lab |-> lab, i |-> i + 1]
    [] t[i].k \in {",", ";"} -> DAttrs(t, i + 1, lab)
    [] t[i].k = "id" /\ t[i + 1].k = "=" /\ t[i + 2].k = "id" ->
         DAttrs(t, i + 3, IF t[i].v = Txt("label") THEN t[i + 2].v ELSE lab)
    [] OTHER -> [ok |-> FALSE]
\* st.m: "top", between statements; "kids", inside the braces after an arrow;
\* "done", after the last brace; "bad"
DAdd(ed, v) == [ed EXCEPT ![Len(ed)].to = Append(@, v)]
DStep(t, st, i) ==
  IF i < st.i \/ st.m = "bad" THEN st
  ELSE LET k == t[i].k
           bad == [st EXCEPT !.m = "bad"]
       IN
  CASE st.m = "done" -> IF k = "end" THEN [st EXCEPT !.i = i + 1] ELSE bad
    [] st.m = "kids" ->
         CASE k = "}" -> [st EXCEPT !.m = "top", !.i = i + 1]
           [] k = "id" -> IF t[i + 1].k = "," /\ t[i + 2].k # "id" THEN bad
                          ELSE IF t[i + 1].k \notin {",", ";", "id", "}"} THEN bad
                          ELSE [st EXCEPT !.i = IF t[i + 1].k \in {",", ";"} THEN i + 2 ELSE i + 1, !.edges = DAdd(@, t[i].v)]
           [] OTHER -> bad
    [] OTHER ->
         CASE k = "}" -> [st EXCEPT !.m = "done", !.i = i + 1]
           [] k = ";" -> [st EXCEPT !.i = i + 1]
           [] k = "id" /\ t[i + 1].k = "[" ->
                LET a == DAttrs(t, i + 2, <<>>)
                IN IF a.ok THEN [st EXCEPT !.i = a.i, !.nodes = Append(@, [id |-> t[i].v, lab |-> a.lab])] ELSE bad
           [] k = "id" /\ t[i + 1].k \in {"id", ";", "}"} -> [st EXCEPT !.i = i + 1, !.nodes = Append(@, [id |-> t[i].v, lab |-> <<>>])]
           [] k = "id" /\ t[i + 1].k = "->" /\ t[i + 2].k = "id" ->
                [st EXCEPT !.i = i + 3, !.edges = Append(@, [from |-> t[i].v, to |-> <<t[i + 2].v>>])]
           [] k = "id" /\ t[i + 1].k = "->" /\ t[i + 2].k = "{" ->
                [st EXCEPT !.i = i + 3, !.m = "kids", !.edges = Append(@, [from |-> t[i].v, to |-> <<>>])]
           [] OTHER -> bad
DotParse(s) ==
  LET t == TLCEval(DotLex(s)) IN
  IF t[1].k = "kw" /\ Low(t[1].v) = Digraph /\ Len(t) > 2 /\ t[2].k = "{"
  THEN LET r == Fold(LAMBDA st, i : DStep(t, st, i), [i |-> 3, m |-> "top", nodes |-> <<>>, edges |-> <<>>],
                         [i \in 1..Len(t) |-> i])
       IN [ok |-> r.m = "done" /\ r.i = Len(t) + 1, nodes |-> r.nodes, edges |-> r.edges]
  ELSE [ok |-> FALSE]

\* --- record labels: fields between bars, \x stands for x, \n for a line end
RECURSIVE LabelAt(_, _, _, _)
LabelAt(s, i, cur, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, f |-> Append(acc, cur)]
  ELSE IF s[i] = 92 THEN
    IF i = Len(s) THEN [ok |-> FALSE]
    ELSE LabelAt(s, i + 2, Append(cur, IF s[i + 1] = 110 THEN 10 ELSE IF s[i + 1] = 114 THEN 13 ELSE s[i + 1]), acc)
  ELSE IF s[i] = 124 THEN LabelAt(s, i + 1, <<>>, Append(acc, cur))
  ELSE IF s[i] \in {123, 125, 60, 62} THEN [ok |-> FALSE]        \* nested fields and ports
  ELSE LabelAt(s, i + 1, Append(cur, s[i]), acc)
Label(s) == LabelAt(s, 1, <<>>, <<>>)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] = 32 THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
=============================================================================
