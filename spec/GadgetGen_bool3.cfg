SPECIFICATION Spec
CONSTANTS
  Family = "bool"
  Max = 3
  Sim = TRUE
INVARIANTS WellFormed Emit
