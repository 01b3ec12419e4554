CONSTANTS
 Family = "consts"
 Deep = TRUE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
