INIT Init
NEXT Same
INVARIANT ShapeSame
