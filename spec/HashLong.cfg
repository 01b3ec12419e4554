SPECIFICATION Spec
INVARIANT LongDigestRight
CHECK_DEADLOCK FALSE
