------------------------------- MODULE Share6 -------------------------------
(* One tree, many readers: each goes through the nodes in order and takes    *)
(* what a node holds in two steps, through a buffer.  Reader r has a buffer  *)
(* of its own, or (Own = FALSE) all have one.  A reader may keep an answer   *)
(* in the tree for the next (Keeps: in one step, or "torn" in two).          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Nodes, Own, Keeps
VARIABLES buf, at, got, kept

Buf(r) == IF Own THEN r ELSE 0
Empty == [full |-> FALSE, v |-> 0]
Init == /\ buf = [b \in Readers \union {0} |-> 0]
        /\ at = [r \in Readers |-> <<1, "fetch">>]
        /\ got = [r \in Readers |-> <<>>]
        /\ kept = [n \in 1..Nodes |-> Empty]
\* node n holds n
Fetch(r) == /\ at[r][2] = "fetch" /\ at[r][1] <= Nodes
            /\ LET n == at[r][1] IN
               IF Keeps # "no" /\ kept[n].full
                 THEN /\ got' = [got EXCEPT ![r] = Append(@, kept[n].v)]
                      /\ at' = [at EXCEPT ![r] = <<n + 1, "fetch">>]
                      /\ UNCHANGED <<buf, kept>>
                 ELSE /\ buf' = [buf EXCEPT ![Buf(r)] = n]
                      /\ at' = [at EXCEPT ![r] = <<n, "take">>]
                      /\ UNCHANGED <<got, kept>>
Take(r) == /\ at[r][2] = "take"
           /\ LET n == at[r][1] IN
              /\ got' = [got EXCEPT ![r] = Append(@, buf[Buf(r)])]
              /\ at' = [at EXCEPT ![r] = IF Keeps = "torn" THEN <<n, "keep">> ELSE <<n + 1, "fetch">>]
              /\ kept' = CASE Keeps = "whole" -> [kept EXCEPT ![n] = [full |-> TRUE, v |-> buf[Buf(r)]]]
                           [] Keeps = "torn" -> [kept EXCEPT ![n].full = TRUE]
                           [] OTHER -> kept
              /\ UNCHANGED buf
Keep(r) == /\ at[r][2] = "keep"
           /\ LET n == at[r][1] IN
              /\ kept' = [kept EXCEPT ![n].v = got[r][n]]
              /\ at' = [at EXCEPT ![r] = <<n + 1, "fetch">>]
           /\ UNCHANGED <<buf, got>>
Next == \E r \in Readers : Fetch(r) \/ Take(r) \/ Keep(r)
Spec == Init /\ [][Next]_<<buf, at, got, kept>>
\* what a reader has read so far is what is there
ReadsTrue == \A r \in Readers : got[r] = [i \in 1..Len(got[r]) |-> i]
=============================================================================
