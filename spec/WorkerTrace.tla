---------------------------- MODULE WorkerTrace ----------------------------
(* Recorded histories of the real worker pool, checked against the visible    *)
(* behaviour of Worker: what submitters, jobs and waiters observe. The events *)
(* of a history are totally ordered by one lock.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, jobs, bad
vars == <<t, l, jobs, bad>>
(* jobs: the jobs so far, a function from id to its record. *)
Init == t \in DOMAIN Cases /\ l = 0 /\ jobs = <<>> /\ bad = FALSE
K == Cases[t]
Has(j) == j \in DOMAIN jobs
Outstanding == Cardinality({j \in DOMAIN jobs : jobs[j].st # "ended"})
Queued == Cardinality({j \in DOMAIN jobs : jobs[j].st = "sub" /\ jobs[j].ret})

Allowed(e) ==
  CASE e.e = "sub" -> ~Has(e.j)
    [] e.e = "ret" -> Has(e.j) /\ ~jobs[e.j].ret
                      \* the queue is bounded by a small multiple of the threads
                      /\ (jobs[e.j].st # "sub" \/ Queued < 16 * K.T + 16)
    \* a submission is held up, but not for long unless it found a backlog
    [] e.e = "held" -> ~Has(e.j) \/ ~jobs[e.j].ret
    [] e.e = "blocked" -> Has(e.j) /\ ~jobs[e.j].ret /\ jobs[e.j].o > K.T
    [] e.e = "start" -> Has(e.j) /\ jobs[e.j].st = "sub"
    [] e.e = "end" -> Has(e.j) /\ jobs[e.j].st = "run"
    [] e.e = "got" -> Has(e.j) /\ jobs[e.j].st = "ended" /\ jobs[e.j].w = "held" /\ e.v = jobs[e.j].v
    [] e.e = "drop" -> Has(e.j) /\ jobs[e.j].ret /\ jobs[e.j].w = "held"
    [] e.e = "quiet" -> \A j \in DOMAIN jobs : jobs[j].st = "ended" /\ jobs[j].ret /\ jobs[j].w # "held"
    [] e.e = "done" -> e.v = e.want
    [] e.e = "poolwait" -> e.res = (IF K.mc THEN "panic" ELSE "value")
    [] OTHER -> FALSE     \* "hang", "panic", "wait failed"
Upd(e) ==
  IF e.e = "sub" THEN jobs' = (e.j :> [st |-> "sub", ret |-> FALSE, w |-> "held", v |-> e.v, o |-> Outstanding]) @@ jobs
  ELSE IF e.e \in {"ret", "start", "end", "got", "drop"} /\ Has(e.j) THEN
    jobs' = [jobs EXCEPT ![e.j] =
               CASE e.e = "ret" -> [@ EXCEPT !.ret = TRUE]
                 [] e.e = "start" -> [@ EXCEPT !.st = "run"]
                 [] e.e = "end" -> [@ EXCEPT !.st = "ended"]
                 [] e.e = "got" -> [@ EXCEPT !.w = "got"]
                 [] e.e = "drop" -> [@ EXCEPT !.w = "dropped"]]
  ELSE UNCHANGED jobs
Next == /\ ~bad /\ l < Len(K.ev) /\ l' = l + 1 /\ UNCHANGED t
        /\ bad' = ~Allowed(K.ev[l + 1])
        /\ Upd(K.ev[l + 1])
Spec == Init /\ [][Next]_vars
BehaviourOfWorker == ~bad
=============================================================================
