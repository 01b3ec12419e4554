SPECIFICATION Spec
INVARIANTS OperationsRight LimitsRight QuotientRight
