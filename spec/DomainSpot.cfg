SPECIFICATION Spec
INVARIANTS SpotRight
