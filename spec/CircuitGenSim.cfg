SPECIFICATION Spec
CONSTANTS
  P = 40961
  Values <- RichValues
  Coeffs <- RichCoeffs
  MaxInp = 4
  MaxAux = 9
  MaxCons = 9
  MinOps = 8
  MaxOps = 18
  Rich = TRUE
  Toxics = {}
  Pick <- PickSome
INVARIANTS AlwaysSatisfied Emit
