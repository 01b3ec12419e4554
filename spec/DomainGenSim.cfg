SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Sizes <- SmallSizes
INVARIANT Emit
