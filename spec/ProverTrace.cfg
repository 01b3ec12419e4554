SPECIFICATION Spec
INVARIANT ErrorsReported
