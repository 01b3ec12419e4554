CONSTANTS
 Family = "cert"
 Deep = TRUE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
