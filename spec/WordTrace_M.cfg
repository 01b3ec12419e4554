SPECIFICATION Spec
INVARIANT MissingRight
