SPECIFICATION Spec
CONSTANTS
  Family = "num"
  Max = 1
  Sim = FALSE
INVARIANTS WellFormed Emit
