SPECIFICATION Spec
CONSTANT Max = 2
INVARIANT Emit
