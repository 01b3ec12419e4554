SPECIFICATION Spec
INVARIANTS TransformsRight
