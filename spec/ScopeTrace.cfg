SPECIFICATION Spec
INVARIANTS ScopeOk LogOk ThreadsIrrelevant
