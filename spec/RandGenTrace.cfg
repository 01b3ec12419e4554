SPECIFICATION Spec
INVARIANTS RandomParametersExplained SecretsIndependent
