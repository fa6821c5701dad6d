-------------------------------- MODULE Fold --------------------------------
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, s) == FoldLeft(op, base, s)
=============================================================================
