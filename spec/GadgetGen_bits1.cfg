SPECIFICATION Spec
CONSTANTS
  Family = "bits"
  Max = 1
  Sim = FALSE
INVARIANTS WellFormed Emit
