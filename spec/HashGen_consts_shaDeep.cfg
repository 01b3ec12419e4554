CONSTANTS
 Family = "consts"
 Deep = TRUE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
