CONSTANTS
 Family = "mixed"
 Max = 4
SPECIFICATION Spec
INVARIANT Emit
