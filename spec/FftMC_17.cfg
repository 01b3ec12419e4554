SPECIFICATION Spec
CONSTANTS
  P = 17
  G = 3
  MaxE = 3
INVARIANTS SerialRight HalvingRight ParallelRight InverseRight CosetRight RootRight ZRight
