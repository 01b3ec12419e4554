SPECIFICATION Spec
CONSTANTS
  Family = "bool"
  Max = 2
  Sim = FALSE
INVARIANTS WellFormed Emit
