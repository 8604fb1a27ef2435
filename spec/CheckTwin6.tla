----------------------------- MODULE CheckTwin6 -----------------------------
(* One text, parsed by the parser that is shipped (e.a) and by the one made  *)
(* anew from the grammar sources (e.b): both do what the language says, and  *)
(* the same, to the last letter of an error.                                 *)
EXTENDS CheckParse6

Said(who, m) == IF m = "ok" THEN "ok" ELSE who \o ": " \o m
JudgeTwin(e) ==
  LET a == Said("the shipped parser", JudgeParse(e.a @@ [s |-> e.s]))
      b == Said("the parser made from the grammar", JudgeParse(e.b @@ [s |-> e.s]))
  IN IF e.b.out = "gone" THEN "the parser made from the grammar crashes"
     ELSE IF b # "ok" THEN b
     ELSE IF a # "ok" THEN a
     ELSE IF e.a = e.b THEN "ok" ELSE "they differ"
=============================================================================
