SPECIFICATION Spec
INVARIANTS ErrorsRight DensityCounted
