CONSTANTS
 Family = "cert"
 Deep = FALSE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
