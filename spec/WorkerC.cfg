SPECIFICATION Spec
CONSTANTS
  Callers <- Callers2
  Child <- Child2
  Threads = 2
  Max = 1
INVARIANTS AtMostOnce OwnResult CounterSane QueueBounded
PROPERTIES AllRun CallersFinish CounterReturns
