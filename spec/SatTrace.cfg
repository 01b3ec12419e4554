SPECIFICATION Spec
INVARIANT Forced
