CONSTANTS
 Family = "consts"
 Deep = FALSE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
