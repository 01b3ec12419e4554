CONSTANTS
 Family = "cert"
 Deep = FALSE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
