CONSTANTS
 Family = "few"
 Deep = TRUE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
