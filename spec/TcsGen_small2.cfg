CONSTANTS
 Family = "small"
 Max = 2
 Q = 13
SPECIFICATION Spec
INVARIANT Emit
