SPECIFICATION Spec
INVARIANTS Complete
