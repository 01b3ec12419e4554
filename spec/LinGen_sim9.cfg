CONSTANTS
 Family = "sim"
 Max = 9
SPECIFICATION Spec
INVARIANT Emit
