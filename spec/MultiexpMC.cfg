SPECIFICATION Spec
CONSTANTS
  Q = 17
  MaxN = 2
  Exps = {0, 1, 2, 9, 16}
  Bases = {0, 1, 5}
  C = 3
  Bits = 5
  Starts = {0, 1}
  Extra = 0
INVARIANTS Right Emit
