SPECIFICATION Spec
CONSTANTS
  Family = "bits"
  Max = 2
  Sim = FALSE
INVARIANTS WellFormed Emit
