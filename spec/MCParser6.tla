----------------------------- MODULE MCParser6 -----------------------------
EXTENDS Parser6
\* a sentence, a longer one, an unknown character first and late, a misplaced token, nothing
Some == {<<1, 2>>, <<0>>, <<3, 1, 0>>, <<2, -1>>, <<>>}
=============================================================================
