SPECIFICATION Spec
CONSTANTS
  Family = "pack"
  Max = 34
  Sim = TRUE
INVARIANTS WellFormed Emit
