SPECIFICATION Spec
INVARIANT ShapeSame
