SPECIFICATION Spec
INVARIANT PackRight
