CONSTANTS
 Family = "small"
 Max = 3
 Q = 13
SPECIFICATION Spec
INVARIANT Emit
