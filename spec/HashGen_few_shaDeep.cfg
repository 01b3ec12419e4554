CONSTANTS
 Family = "few"
 Deep = TRUE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
