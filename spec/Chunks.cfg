SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxT = 4
INVARIANTS NonEmpty Disjoint Complete Bounded
PROPERTY Returns
