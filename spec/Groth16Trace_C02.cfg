SPECIFICATION Spec
INVARIANTS VerifierExact NotFooled
