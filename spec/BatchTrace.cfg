SPECIFICATION Spec
INVARIANT Agrees
