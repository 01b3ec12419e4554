CONSTANTS
 Family = "consts"
 Deep = FALSE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
