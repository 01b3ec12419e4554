SPECIFICATION Spec
INVARIANT CertOK
