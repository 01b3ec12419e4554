SPECIFICATION Spec
CONSTANTS
  Callers <- Callers1
  Child <- Child1
  Threads = 2
  Max = 1
INVARIANTS AtMostOnce OwnResult CounterSane QueueBounded
PROPERTIES AllRun CallersFinish CounterReturns
