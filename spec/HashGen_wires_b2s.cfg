CONSTANTS
 Family = "wires"
 Deep = FALSE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
