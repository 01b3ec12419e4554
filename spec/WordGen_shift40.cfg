CONSTANTS
 Family = "shift"
 Max = 40
SPECIFICATION Spec
INVARIANT Emit
