SPECIFICATION Spec
INVARIANT LinRight
