SPECIFICATION Spec
INVARIANT CanonRight
