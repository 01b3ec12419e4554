CONSTANTS
 Family = "const"
 Max = 2
SPECIFICATION Spec
INVARIANT Emit
