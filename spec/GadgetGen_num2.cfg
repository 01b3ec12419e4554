SPECIFICATION Spec
CONSTANTS
  Family = "num"
  Max = 2
  Sim = FALSE
INVARIANTS WellFormed Emit
