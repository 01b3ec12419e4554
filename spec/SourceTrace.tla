---------------------------- MODULE SourceTrace ----------------------------
(* Histories of a source of bases (next, skip) and of a density tracker.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, pos, map, bad
vars == <<t, l, pos, map, bad>>
Init == t \in DOMAIN Cases /\ l = 0 /\ pos = Cases[t].start /\ map = <<>> /\ bad = FALSE
K == Cases[t]
Ones(m) == Cardinality({i \in DOMAIN m : m[i]})
Allowed(e) ==
  CASE e.e = "next" ->
         IF pos >= Len(K.bases) THEN e.res = "IoEof"
         ELSE IF K.bases[pos + 1] = 0 THEN e.res = "UnexpectedIdentity"
         ELSE e.res = "ok" /\ e.out = K.bases[pos + 1]
    [] e.e = "skip" ->
         IF pos >= Len(K.bases) THEN e.res = "IoEof"
         ELSE IF pos + e.n > Len(K.bases) THEN e.res \in {"ok", "IoEof"}
         ELSE e.res = "ok"
    [] e.e \in {"add", "inc"} -> TRUE
    [] e.e = "total" -> e.out = Ones(map)
    [] e.e = "map" -> e.out = map /\ e.size = Len(map)
    [] e.e = "fullmap" -> e.out = [i \in 1..5 |-> TRUE] /\ e.size = -1
    [] OTHER -> FALSE
Next ==
  /\ ~bad /\ l < Len(K.ev) /\ l' = l + 1 /\ UNCHANGED t
  /\ LET e == K.ev[l + 1] IN
     /\ bad' = ~Allowed(e)
     /\ pos' = CASE e.e = "next" /\ e.res = "ok" -> pos + 1
                 [] e.e = "skip" /\ (e.res = "ok" \/ pos + e.n > Len(K.bases)) -> pos + e.n
                 [] OTHER -> pos
     /\ map' = CASE e.e = "add" -> Append(map, FALSE)
                 [] e.e = "inc" -> [map EXCEPT ![e.i + 1] = TRUE]
                 [] OTHER -> map
Spec == Init /\ [][Next]_vars
BehaviourOfSource == ~bad
=============================================================================
