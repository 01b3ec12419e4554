SPECIFICATION Spec
CONSTANTS P = 31 Limit = 4 MaxEqs = 6
INVARIANTS Exact Bounded NoWrap
