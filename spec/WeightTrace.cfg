SPECIFICATION Spec
INVARIANTS WeightsFresh NeverAccepted
