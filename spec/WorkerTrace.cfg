SPECIFICATION Spec
INVARIANT BehaviourOfWorker
