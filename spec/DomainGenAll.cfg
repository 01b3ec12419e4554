SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Sizes <- FewSizes
INVARIANT Emit
