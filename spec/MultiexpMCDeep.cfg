SPECIFICATION Spec
CONSTANTS
  Q = 17
  MaxN = 4
  Exps = {0, 1, 9, 16}
  Bases = {0, 5}
  C = 3
  Bits = 5
  Starts = {0}
  Extra = 0
INVARIANTS Right Emit
