CONSTANTS
 Family = "mixed"
 Max = 8
SPECIFICATION Spec
INVARIANT Emit
