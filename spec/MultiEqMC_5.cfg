SPECIFICATION Spec
CONSTANTS P = 5 Limit = 2 MaxEqs = 6
INVARIANTS Exact Bounded NoWrap
