CONSTANTS
 Family = "pairs"
 Max = 1
SPECIFICATION Spec
INVARIANT Emit
