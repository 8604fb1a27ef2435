------------------------------- MODULE FoldText --------------------------------
LOCAL INSTANCE SequencesExt
\* folds Op over a sequence, from the left
Fold(Op(_, _), init, s) == FoldLeft(Op, init, s)
=============================================================================
