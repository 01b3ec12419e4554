SPECIFICATION Spec
INVARIANT Exact
CONSTANT W = 5
