SPECIFICATION Spec
CONSTANTS
  P = 40961
  G = 3
  MaxE = 4
INVARIANTS SerialRight HalvingRight ParallelRight InverseRight CosetRight RootRight ZRight
