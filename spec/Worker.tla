------------------------------- MODULE Worker -------------------------------
(* The worker pool: callers hand jobs to a pool of threads and get a waiter   *)
(* for each; a counter of unfinished jobs bounds the queue: a caller that     *)
(* finds the backlog too long has its job run while it blocks. A job may      *)
(* itself hand a child job to the pool. Every interleaving of the steps       *)
(* (count, enqueue, take, run, deliver, discount, wait, drop) is explored.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Callers,   \* caller -> sequence of jobs
          Child,     \* job -> its child job, or 0
          Threads, Max
Jobs == UNION ({ {Callers[c][i] : i \in DOMAIN Callers[c]} : c \in DOMAIN Callers }
               \cup { {Child[j] : j \in DOMAIN Child} \ {0} })
VARIABLES count,   \* the shared counter
          queue,   \* jobs that a pool thread may take
          busy,    \* thread -> [job, stage] stack (a thread runs a child inline on top)
          cpc,     \* caller -> [i, stage]: which job, and how far
          chan,    \* job -> "none", "open", "full" (result there), "closed" (taken or dropped)
          ran,     \* job -> how often it ran
          got      \* job -> the job whose result its waiter returned, 0: none, -1: dropped
vars == <<count, queue, busy, cpc, chan, ran, got>>
Init == /\ count = 0 /\ queue = {}
        /\ busy = [t \in 1..Threads |-> <<>>]
        /\ cpc = [c \in DOMAIN Callers |-> [i |-> 1, st |-> "count"]]
        /\ chan = [j \in Jobs |-> "none"] /\ ran = [j \in Jobs |-> 0]
        /\ got = [j \in Jobs |-> 0]

Cur(c) == Callers[c][cpc[c].i]
Active(c) == cpc[c].i <= Len(Callers[c])
To(c, s) == cpc' = [cpc EXCEPT ![c].st = s]
Step(c) == cpc' = [cpc EXCEPT ![c] = [i |-> @.i + 1, st |-> "count"]]
Done(j) == ran[j] > 0 /\ \A t \in DOMAIN busy : \A k \in DOMAIN busy[t] : busy[t][k].job # j

(* ---- callers outside the pool ---- *)
CCount(c) == /\ Active(c) /\ cpc[c].st = "count"
             /\ count' = count + 1
             /\ To(c, IF count > Max THEN "inline" ELSE "spawn")
             /\ chan' = [chan EXCEPT ![Cur(c)] = "open"]
             /\ UNCHANGED <<queue, busy, ran, got>>
CSpawn(c) == /\ Active(c) /\ cpc[c].st \in {"spawn", "inline"}
             /\ queue' = queue \cup {Cur(c)}
             /\ To(c, IF cpc[c].st = "inline" THEN "blocked" ELSE "hold")
             /\ UNCHANGED <<count, busy, chan, ran, got>>
CUnblock(c) == /\ Active(c) /\ cpc[c].st = "blocked" /\ Done(Cur(c)) /\ To(c, "hold")
               /\ UNCHANGED <<count, queue, busy, chan, ran, got>>
(* Waiters are used at once or, by whoever holds them, at any later time. *)
CNext(c) == /\ Active(c) /\ cpc[c].st = "hold" /\ Step(c)
            /\ UNCHANGED <<count, queue, busy, chan, ran, got>>
Wait(j) == /\ chan[j] = "full" /\ chan' = [chan EXCEPT ![j] = "closed"]
           /\ got' = [got EXCEPT ![j] = j] /\ UNCHANGED <<count, queue, busy, cpc, ran>>
Drop(j) == /\ chan[j] \in {"open", "full"} /\ chan' = [chan EXCEPT ![j] = "closed"]
           /\ got' = [got EXCEPT ![j] = -1] /\ UNCHANGED <<count, queue, busy, cpc, ran>>

(* ---- pool threads ---- *)
Top(t) == busy[t][Len(busy[t])]
Set(t, s) == busy' = [busy EXCEPT ![t][Len(busy[t])].st = s]
Push(t, j) == busy' = [busy EXCEPT ![t] = Append(@, [job |-> j, st |-> "run"])]
Take(t) == /\ busy[t] = <<>> /\ \E j \in queue : Push(t, j) /\ queue' = queue \ {j}
           /\ UNCHANGED <<count, cpc, chan, ran, got>>
Run(t) == /\ busy[t] # <<>> /\ Top(t).st = "run"
          /\ ran' = [ran EXCEPT ![Top(t).job] = @ + 1]
          /\ Set(t, IF Child[Top(t).job] # 0 THEN "ccount" ELSE "send")
          /\ UNCHANGED <<count, queue, cpc, chan, got>>
ChildCount(t) == /\ busy[t] # <<>> /\ Top(t).st = "ccount"
                 /\ count' = count + 1
                 /\ Set(t, IF count > Max THEN "cinline" ELSE "cspawn")
                 /\ chan' = [chan EXCEPT ![Child[Top(t).job]] = "open"]
                 /\ UNCHANGED <<queue, cpc, ran, got>>
ChildSpawn(t) == /\ busy[t] # <<>> /\ Top(t).st = "cspawn"
                 /\ queue' = queue \cup {Child[Top(t).job]} /\ Set(t, "send")
                 /\ UNCHANGED <<count, cpc, chan, ran, got>>
(* A pool thread that finds the backlog too long runs the child itself. *)
ChildInline(t) == /\ busy[t] # <<>> /\ Top(t).st = "cinline"
                  /\ busy' = [busy EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].st = "send"],
                                                        [job |-> Child[Top(t).job], st |-> "run"])]
                  /\ UNCHANGED <<count, queue, cpc, chan, ran, got>>
Send(t) == /\ busy[t] # <<>> /\ Top(t).st = "send" /\ Set(t, "sub")
           /\ chan' = [chan EXCEPT ![Top(t).job] = IF @ = "open" THEN "full" ELSE @]
           /\ UNCHANGED <<count, queue, cpc, ran, got>>
Discount(t) == /\ busy[t] # <<>> /\ Top(t).st = "sub" /\ count' = count - 1
               /\ busy' = [busy EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
               /\ UNCHANGED <<queue, cpc, chan, ran, got>>

CallerStep == \E c \in DOMAIN Callers : CCount(c) \/ CSpawn(c) \/ CUnblock(c) \/ CNext(c)
UseStep == \E j \in Jobs : (Wait(j) \/ Drop(j))
ThreadStep(t) == Take(t) \/ Run(t) \/ ChildCount(t) \/ ChildSpawn(t) \/ ChildInline(t) \/ Send(t) \/ Discount(t)
Next == CallerStep \/ UseStep \/ \E t \in 1..Threads : ThreadStep(t)
Spec == /\ Init /\ [][Next]_vars
        /\ \A c \in DOMAIN Callers : WF_vars(CCount(c) \/ CSpawn(c) \/ CUnblock(c) \/ CNext(c))
        /\ \A t \in 1..Threads : WF_vars(ThreadStep(t))

AtMostOnce == \A j \in Jobs : ran[j] <= 1
OwnResult == \A j \in Jobs : got[j] \in {0, -1, j} /\ (got[j] = j => ran[j] = 1)
Unfinished == Cardinality({j \in Jobs : chan[j] # "none" /\ ~Done(j)})
CounterSane == count >= 0 /\ count >= Unfinished - Cardinality({t \in DOMAIN busy : busy[t] # <<>>}) - Len(Callers)
(* The queue never grows beyond the limit and one job per blocked caller. *)
QueueBounded == Cardinality(queue) <= Max + 1 + Len(Callers)
AllRun == <>[](\A j \in Jobs : ran[j] = 1 /\ chan[j] \in {"full", "closed"})
CallersFinish == <>[](\A c \in DOMAIN Callers : ~Active(c))
CounterReturns == <>[](count = 0)

Callers1 == << <<1, 2, 3, 4>> >>
Callers2 == << <<1, 2>>, <<3, 4>> >>
Child0 == [j \in 1..6 |-> 0]
Child1 == [j \in 1..6 |-> IF j = 1 THEN 5 ELSE 0]
Child2 == [j \in 1..6 |-> IF j = 1 THEN 5 ELSE IF j = 3 THEN 6 ELSE 0]
=============================================================================
