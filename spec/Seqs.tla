--------------------------------- MODULE Seqs ---------------------------------
(* What the models need of the community modules, which have other notions of  *)
(* some names of Text.                                                         *)
LOCAL INSTANCE SequencesExt
AsSeq(S) == SetToSeq(S)
Fold(Op(_, _), base, seq) == FoldLeft(Op, base, seq)
=============================================================================
