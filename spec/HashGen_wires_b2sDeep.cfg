CONSTANTS
 Family = "wires"
 Deep = TRUE
 Algs = {"b2s"}
SPECIFICATION Spec
INVARIANT Emit
