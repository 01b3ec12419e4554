SPECIFICATION Spec
INVARIANT PerfectZeroKnowledge
