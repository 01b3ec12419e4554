SPECIFICATION Spec
INVARIANTS ProverExact RequestsExact
