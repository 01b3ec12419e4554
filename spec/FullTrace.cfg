SPECIFICATION Spec
INVARIANTS SecretsFresh SecretsFullWidth SecretsUnrelated AllExplained HonestAccepted WrongRejected
CHECK_DEADLOCK FALSE
