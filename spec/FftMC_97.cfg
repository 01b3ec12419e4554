SPECIFICATION Spec
CONSTANTS
  P = 97
  G = 5
  MaxE = 4
INVARIANTS SerialRight HalvingRight ParallelRight InverseRight CosetRight RootRight ZRight
