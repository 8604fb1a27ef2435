-------------------------------- MODULE Like --------------------------------
(* SQL patterns on sequences of characters.                                  *)
EXTENDS Integers, Sequences, FiniteSets

\* the positions of t (0..Len(t)) reachable after the pattern's first j characters
RECURSIVE LikeAt(_, _, _, _)
LikeAt(p, t, j, S) ==
  IF S = {} THEN FALSE
  ELSE IF j > Len(p) THEN Len(t) \in S
  ELSE LikeAt(p, t, j + 1,
    CASE p[j] = 37 -> LET m == CHOOSE i \in S : \A k \in S : i <= k IN m..Len(t)
      [] p[j] = 95 -> {i + 1 : i \in {k \in S : k < Len(t)}}
      [] OTHER -> {i + 1 : i \in {k \in S : k < Len(t) /\ t[k + 1] = p[j]}})
LikeChars(t, p) == LikeAt(p, t, 1, {0})

\* letter case, for the scripts the specification knows about
FoldKnown(c) == c < 192 \/ (c >= 192 /\ c <= 222 /\ c # 215) \/ c \in {215, 223, 247} \/ (c >= 224 /\ c <= 254)
                \/ (c >= 913 /\ c <= 929) \/ (c >= 945 /\ c <= 961)
                \/ (c >= 1040 /\ c <= 1103) \/ (c >= 12288 /\ c <= 40959) \/ c >= 127744 \/ c = 65533
                \/ c = 8364
FoldOne(c) == IF c >= 65 /\ c <= 90 THEN c + 32
           ELSE IF c >= 192 /\ c <= 222 /\ c # 215 THEN c + 32
           ELSE IF c >= 913 /\ c <= 929 THEN c + 32
           ELSE IF c >= 1040 /\ c <= 1071 THEN c + 32
           ELSE c
FoldAll(s) == [i \in 1..Len(s) |-> FoldOne(s[i])]
FoldsKnown(s) == \A i \in 1..Len(s) : FoldKnown(s[i])
=============================================================================
