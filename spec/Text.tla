-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of byte values 0..255 (UTF-8) unless said otherwise.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FoldText

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
\* the text of a TLA+ string of printable ASCII characters
Txt(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

IsDigit(c)  == c >= 48 /\ c <= 57
IsUpper(c)  == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLowerC(c)
LowC(c)     == IF IsUpper(c) THEN c + 32 ELSE c
Low(s)      == [i \in 1..Len(s) |-> LowC(s[i])]
IsSpaceC(c) == c \in {9, 10, 11, 12, 13, 32}

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

\* first index >= i at which s is not a digit
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i

\* does w occur in s at index i
Starts(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A j \in 1..Len(w) : s[i + j - 1] = w[j]
Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : Starts(s, i, w)
ContainsC(s, c) == \E i \in 1..Len(s) : s[i] = c

\* decimal value of a short run of digits s[a..b]
RECURSIVE NumAt(_, _, _, _)
NumAt(s, a, b, acc) == IF a > b THEN acc ELSE NumAt(s, a + 1, b, acc * 10 + (s[a] - 48))
Num(s, a, b) == NumAt(s, a, b, 0)

\* order of two texts, byte by byte
RECURSIVE LessAt(_, _, _)
LessAt(s, t, i) == IF i > Len(s) THEN i <= Len(t)
                   ELSE IF i > Len(t) THEN FALSE
                   ELSE IF s[i] # t[i] THEN s[i] < t[i] ELSE LessAt(s, t, i + 1)
TextLess(s, t) == LessAt(s, t, 1)

(* UTF-8 decoding: the sequence of characters (code points); a byte that is *)
(* not part of a valid encoding counts as one character (65533).            *)
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] < 192
RECURSIVE DecodeAt(_, _, _)
DecodeAt(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == s[i] IN
       IF c < 128 THEN DecodeAt(s, i + 1, Append(acc, c))
       ELSE IF c >= 194 /\ c < 224 /\ Cont(s, i + 1)
         THEN DecodeAt(s, i + 2, Append(acc, (c - 192) * 64 + (s[i+1] - 128)))
       ELSE IF c >= 224 /\ c < 240 /\ Cont(s, i + 1) /\ Cont(s, i + 2)
               /\ ~(c = 224 /\ s[i+1] < 160) /\ ~(c = 237 /\ s[i+1] >= 160)
         THEN DecodeAt(s, i + 3, Append(acc, (c - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)))
       ELSE IF c >= 240 /\ c < 245 /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
               /\ ~(c = 240 /\ s[i+1] < 144) /\ ~(c = 244 /\ s[i+1] >= 144)
         THEN DecodeAt(s, i + 4, Append(acc, (c - 240) * 262144 + (s[i+1] - 128) * 4096
                                              + (s[i+2] - 128) * 64 + (s[i+3] - 128)))
       ELSE DecodeAt(s, i + 1, Append(acc, 65533))
AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128
Chars(s) == IF AllAscii(s) THEN s ELSE DecodeAt(s, 1, <<>>)
=============================================================================
