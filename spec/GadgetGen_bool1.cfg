SPECIFICATION Spec
CONSTANTS
  Family = "bool"
  Max = 1
  Sim = FALSE
INVARIANTS WellFormed Emit
