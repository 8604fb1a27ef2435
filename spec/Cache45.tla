------------------------------ MODULE Cache45 ------------------------------
(* The generated parsers of v4 and v5 share one prediction cache among all   *)
(* parser values of the process: a decision not met before is worked out and *)
(* entered in steps (the entry first, then what it says). Calls of Procs     *)
(* parse one text after the other; with the lock of ParseTSL each call has   *)
(* the outcome it has alone (AsAlone), without it a call can act on an entry *)
(* that is half made. Errors are per call (a listener of its own), so no     *)
(* call leaves anything but finished entries behind (Finished).              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Texts, Calls, Locked
\* a text is the sequence of decisions its parse takes; its outcome is what the decisions say
VARIABLES cache, lock, at, text, seen, left, out
vars == <<cache, lock, at, text, seen, left, out>>
Keys == UNION {{t[i] : i \in 1..Len(t)} : t \in Texts}
Says(k) == k * 10
Alone(t) == [i \in 1..Len(t) |-> Says(t[i])]
Init == /\ cache = [k \in Keys |-> "none"] /\ lock = 0
        /\ at = [p \in Procs |-> "idle"] /\ text = [p \in Procs |-> <<>>] /\ seen = [p \in Procs |-> <<>>]
        /\ left = [p \in Procs |-> Calls] /\ out = {}
Start(p) == /\ at[p] = "idle" /\ left[p] > 0 /\ (Locked => lock = 0)
            /\ \E t \in Texts : text' = [text EXCEPT ![p] = t]
            /\ lock' = IF Locked THEN p ELSE lock
            /\ at' = [at EXCEPT ![p] = "look"] /\ seen' = [seen EXCEPT ![p] = <<>>]
            /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED <<cache, out>>
Key(p) == text[p][Len(seen[p]) + 1]
More(p) == Len(seen[p]) < Len(text[p])
\* look a decision up; if it is new, enter it (without its meaning yet)
Hit(p) == /\ at[p] = "look" /\ More(p) /\ cache[Key(p)] # "none"
          /\ seen' = [seen EXCEPT ![p] = Append(@, IF cache[Key(p)] = "made" THEN Says(Key(p)) ELSE 0)]
          /\ UNCHANGED <<cache, lock, at, text, left, out>>
Miss(p) == /\ at[p] = "look" /\ More(p) /\ cache[Key(p)] = "none"
           /\ cache' = [cache EXCEPT ![Key(p)] = "half"] /\ at' = [at EXCEPT ![p] = "fill"]
           /\ UNCHANGED <<lock, text, seen, left, out>>
Fill(p) == /\ at[p] = "fill" /\ cache' = [cache EXCEPT ![Key(p)] = "made"] /\ at' = [at EXCEPT ![p] = "look"]
           /\ UNCHANGED <<lock, text, seen, left, out>>
Done(p) == /\ at[p] = "look" /\ ~More(p) /\ out' = out \cup {<<text[p], seen[p]>>}
           /\ at' = [at EXCEPT ![p] = "idle"] /\ lock' = IF Locked THEN 0 ELSE lock
           /\ UNCHANGED <<cache, text, seen, left>>
Next == \E p \in Procs : Start(p) \/ Hit(p) \/ Miss(p) \/ Fill(p) \/ Done(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Hit(p) \/ Miss(p) \/ Fill(p) \/ Done(p)) /\ SF_vars(Start(p))
----------------------------------------------------------------------------
AsAlone == \A o \in out : o[2] = Alone(o[1])
Finished == Locked /\ lock = 0 => \A k \in Keys : cache[k] # "half"
Mutual == Locked => Cardinality({p \in Procs : at[p] # "idle"}) <= 1
\* every call ends
Ends == <>(\A p \in Procs : at[p] = "idle" /\ left[p] = 0)
TheTexts == {<<1>>, <<1, 2>>, <<2, 3, 1>>, <<>>}
=============================================================================
