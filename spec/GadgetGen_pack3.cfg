SPECIFICATION Spec
CONSTANTS
  Family = "pack"
  Max = 3
  Sim = TRUE
INVARIANTS WellFormed Emit
