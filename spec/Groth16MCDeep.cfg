SPECIFICATION Spec
CONSTANTS
 P = 17
 G = 3
 Toxics <- ToxDeep
 Rands <- RandsQuick
INVARIANTS CatalogueSane CheatsAreUnsat Completeness InputsBound ProofBound ArityChecked ZeroKnowledge
