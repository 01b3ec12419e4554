SPECIFICATION Spec
CONSTANTS
  Callers <- Callers1
  Child <- Child0
  Threads = 1
  Max = 1
INVARIANTS AtMostOnce OwnResult CounterSane QueueBounded
PROPERTIES AllRun CallersFinish CounterReturns
