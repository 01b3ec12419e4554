SPECIFICATION Spec
CONSTANTS
 P = 17
 G = 3
 Toxics <- ToxZk
 Rands <- RandsZk
INVARIANTS CatalogueSane CheatsAreUnsat Completeness InputsBound ProofBound ArityChecked ZeroKnowledge
