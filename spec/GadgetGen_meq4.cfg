SPECIFICATION Spec
CONSTANTS
  Family = "meq"
  Max = 4
  Sim = TRUE
INVARIANTS WellFormed Emit
