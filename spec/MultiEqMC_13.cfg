SPECIFICATION Spec
CONSTANTS P = 13 Limit = 3 MaxEqs = 6
INVARIANTS Exact Bounded NoWrap
