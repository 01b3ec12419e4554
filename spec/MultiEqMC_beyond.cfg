SPECIFICATION Spec
CONSTANTS P = 13 Limit = 5 MaxEqs = 4
INVARIANT Exact
