CONSTANTS
 Family = "wires"
 Deep = TRUE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
