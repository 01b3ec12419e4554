SPECIFICATION Spec
CONSTANTS
  MaxJobs = 24
  Callers = 3
INVARIANT Emit
