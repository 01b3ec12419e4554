CONSTANTS
 Family = "few"
 Deep = FALSE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
