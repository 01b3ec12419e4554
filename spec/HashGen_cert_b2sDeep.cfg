CONSTANTS
 Family = "cert"
 Deep = TRUE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
