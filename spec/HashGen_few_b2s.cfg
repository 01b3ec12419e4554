CONSTANTS
 Family = "few"
 Deep = FALSE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
