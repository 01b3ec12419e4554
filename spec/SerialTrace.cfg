SPECIFICATION Spec
INVARIANTS ReadRight WriteRight EqualityRight BlsRight ManyRight
