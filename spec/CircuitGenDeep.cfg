SPECIFICATION Spec
CONSTANTS
  P = 40961
  Values = {3}
  Coeffs = {1}
  MaxInp = 1
  MaxAux = 2
  MaxCons = 2
  MinOps = 0
  MaxOps = 4
  Rich = FALSE
  Toxics = {}
  Pick <- PickAll
INVARIANTS AlwaysSatisfied Emit
