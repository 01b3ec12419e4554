SPECIFICATION Spec
INVARIANT TcsRight
