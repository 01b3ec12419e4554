SPECIFICATION Spec
CONSTANTS
  P = 40961
  G = 3
  MaxE = 6
INVARIANTS SerialRight HalvingRight ParallelRight InverseRight CosetRight RootRight ZRight
