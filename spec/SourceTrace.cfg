SPECIFICATION Spec
INVARIANT BehaviourOfSource
