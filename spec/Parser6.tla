------------------------------ MODULE Parser6 ------------------------------
(* The state the v6 parser keeps between its steps - one buffer, column,     *)
(* message, position, copy of the input and root for the whole process - and *)
(* the calls that use it.  A text is a sequence of tokens: a number is a     *)
(* good token of that width, 0 an unknown character, -1 what no sentence     *)
(* can have there.  Locked: calls hold a lock from before the first use of   *)
(* that state until after the last.  Resets: a call starts from fresh state. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Texts, Calls, Locked, Resets
VARIABLES g, lock, pc, txt, at, got, outs
vars == <<g, lock, pc, txt, at, got, outs>>

None == <<>>
Fresh == [buf |-> None, col |-> 1, msg |-> "", pos |-> 0, src |-> None, root |-> None]

\* what a text gives when nothing else happens
RECURSIVE Scan(_, _, _)
Scan(t, i, col) ==
  IF i > Len(t) THEN (IF t = <<>> THEN [ok |-> FALSE, msg |-> "syntax", pos |-> col, src |-> t, root |-> None]
                      ELSE [ok |-> TRUE, msg |-> "", pos |-> 0, src |-> None, root |-> t])
  ELSE IF t[i] = 0 THEN [ok |-> FALSE, msg |-> "unknown", pos |-> col + 1, src |-> t, root |-> None]
  ELSE IF t[i] = -1 THEN [ok |-> FALSE, msg |-> "syntax", pos |-> col + 1, src |-> t, root |-> None]
  ELSE Scan(t, i + 1, col + t[i])
Alone(t) == Scan(t, 1, 1)

Init == /\ g = Fresh /\ lock = 0
        /\ pc = [p \in Procs |-> "idle"] /\ txt = [p \in Procs |-> None] /\ at = [p \in Procs |-> 0]
        /\ got = [p \in Procs |-> Alone(None)]
        /\ outs = [p \in Procs |-> <<>>]

Call(p) == /\ pc[p] = "idle" /\ Len(outs[p]) < Calls
           /\ \E t \in Texts : txt' = [txt EXCEPT ![p] = t]
           /\ pc' = [pc EXCEPT ![p] = "enter"]
           /\ UNCHANGED <<g, lock, at, got, outs>>
Enter(p) == /\ pc[p] = "enter"
            /\ IF Locked THEN lock = 0 /\ lock' = p ELSE lock' = lock
            /\ g' = IF Resets THEN [Fresh EXCEPT !.buf = txt[p], !.src = txt[p]] ELSE [g EXCEPT !.buf = txt[p], !.src = txt[p]]
            /\ at' = [at EXCEPT ![p] = 1]
            /\ pc' = [pc EXCEPT ![p] = "scan"]
            /\ UNCHANGED <<txt, got, outs>>
\* the next token of the shared buffer
Token(p) == /\ pc[p] = "scan"
            /\ LET b == g.buf
                   i == at[p]
                   fail(m, c) == /\ g' = [g EXCEPT !.msg = m, !.pos = c, !.root = None]
                                 /\ pc' = [pc EXCEPT ![p] = "fail"] /\ at' = at
               IN IF i > Len(b)
                  THEN IF b = <<>> THEN fail("syntax", g.col)
                       ELSE g' = [g EXCEPT !.root = b] /\ pc' = [pc EXCEPT ![p] = "good"] /\ at' = at
                  ELSE IF b[i] = 0 THEN fail("unknown", g.col + 1)
                  ELSE IF b[i] = -1 THEN fail("syntax", g.col + 1)
                  ELSE g' = [g EXCEPT !.col = @ + b[i]] /\ at' = [at EXCEPT ![p] = i + 1] /\ pc' = pc
            /\ UNCHANGED <<lock, txt, got, outs>>
Good(p) == /\ pc[p] = "good"
           /\ got' = [got EXCEPT ![p] = [ok |-> TRUE, msg |-> "", pos |-> 0, src |-> None, root |-> g.root]]
           /\ pc' = [pc EXCEPT ![p] = "clean"]
           /\ UNCHANGED <<g, lock, txt, at, outs>>
\* message, position and input are fetched one after the other
Fail(p) == /\ pc[p] = "fail"
           /\ got' = [got EXCEPT ![p] = [ok |-> FALSE, msg |-> g.msg, pos |-> 0, src |-> None, root |-> None]]
           /\ pc' = [pc EXCEPT ![p] = "where"]
           /\ UNCHANGED <<g, lock, txt, at, outs>>
Where(p) == /\ pc[p] = "where"
            /\ got' = [got EXCEPT ![p].pos = g.pos, ![p].src = g.src]
            /\ pc' = [pc EXCEPT ![p] = "clean"]
            /\ UNCHANGED <<g, lock, txt, at, outs>>
Clean(p) == /\ pc[p] = "clean"
            /\ g' = [g EXCEPT !.msg = "", !.src = None]
            /\ lock' = IF Locked THEN 0 ELSE lock
            /\ outs' = [outs EXCEPT ![p] = Append(@, <<txt[p], got[p]>>)]
            /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ UNCHANGED <<txt, at, got>>
Next == \E p \in Procs : Call(p) \/ Enter(p) \/ Token(p) \/ Good(p) \/ Fail(p) \/ Where(p) \/ Clean(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Call(p) \/ Token(p) \/ Good(p) \/ Fail(p) \/ Where(p) \/ Clean(p)) /\ SF_vars(Enter(p))

\* every call comes out as it would alone, whatever came before or runs beside it
AsAlone == \A p \in Procs : \A i \in 1..Len(outs[p]) : outs[p][i][2] = Alone(outs[p][i][1])
\* and every call comes to an end
Ends == \A p \in Procs : <>(Len(outs[p]) = Calls)
OneInside == Locked => Cardinality({p \in Procs : pc[p] \notin {"idle", "enter"}}) <= 1
=============================================================================
