SPECIFICATION Spec
CONSTANTS
  P = 40961
  MaxLen = 1
  Emitting = TRUE
INVARIANTS RoundTrip NoPrefix ExactUse Canonical Emit
