SPECIFICATION Spec
CONSTANTS
  Family = "pack"
  Max = 8
  Sim = TRUE
INVARIANTS WellFormed Emit
