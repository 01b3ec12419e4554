SPECIFICATION Spec
INVARIANT ValuesRight
