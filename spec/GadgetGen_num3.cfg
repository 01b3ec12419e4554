SPECIFICATION Spec
CONSTANTS
  Family = "num"
  Max = 3
  Sim = TRUE
INVARIANTS WellFormed Emit
