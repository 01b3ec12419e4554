CONSTANTS
 Family = "sim"
 Max = 40
 Q = 13
SPECIFICATION Spec
INVARIANT Emit
