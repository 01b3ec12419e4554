CONSTANTS
 Family = "wires"
 Deep = FALSE
 Algs = {"sha", "block"}
SPECIFICATION Spec
INVARIANT Emit
