SPECIFICATION Spec
CONSTANTS
  Family = "look"
  Max = 1
  Sim = FALSE
INVARIANTS WellFormed Emit
