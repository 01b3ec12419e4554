SPECIFICATION Spec
CONSTANTS
  MaxJobs = 2
  Callers = 1
INVARIANT Emit
