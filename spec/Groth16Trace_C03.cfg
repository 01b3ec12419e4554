SPECIFICATION Spec
INVARIANTS GeneratorFaithful
