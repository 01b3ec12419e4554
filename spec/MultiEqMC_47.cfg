SPECIFICATION Spec
CONSTANTS P = 47 Limit = 5 MaxEqs = 6
INVARIANTS Exact Bounded NoWrap
