CONSTANTS
 Family = "pairs"
 Max = 2
SPECIFICATION Spec
INVARIANT Emit
