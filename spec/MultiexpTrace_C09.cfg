SPECIFICATION Spec
INVARIANTS ValueRight
