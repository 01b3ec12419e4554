SPECIFICATION Spec
CONSTANTS
  Callers <- Callers2
  Child <- Child1
  Threads = 1
  Max = 0
INVARIANTS AtMostOnce OwnResult CounterSane QueueBounded
PROPERTIES AllRun CallersFinish CounterReturns
