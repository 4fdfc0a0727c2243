------------------------------ MODULE AmpeEvents ------------------------------
(* Event intervals (output, restart, regridding schedules).  Times are integers  *)
(* in units of 1/8; a state remembers the time of the last query and the time of *)
(* the last event; -8 stands for "never".                                        *)
EXTENDS Integers
Never == -8
EvInit == [prev |-> Never, last |-> Never]
EvActive(p) == p.n > 0
EvOccurred(p,s,t) == EvActive(p) /\ s.last = t
\* what the query `op` at step k, time t answers in state s
EvFires(p,s,op,k,t) ==
  CASE op = "active" -> EvActive(p)
    [] op = "occurred" -> EvOccurred(p,s,t)
    [] op = "first" -> EvActive(p) /\ p.first /\ ~EvOccurred(p,s,t)
    [] op = "last" -> EvActive(p) /\ p.final /\ ~EvOccurred(p,s,t)
    [] op = "passed" -> EvActive(p) /\ ~EvOccurred(p,s,t) /\
         (IF p.first /\ s.prev < 0 THEN TRUE
          ELSE IF p.kind = "cycle" THEN k % p.n = 0
          ELSE s.prev >= 0 /\ (t \div p.n) > (s.prev \div p.n))
EvNext(p,s,op,k,t) ==
  IF op \in {"active","occurred"} THEN s
  ELSE [prev |-> t, last |-> IF EvFires(p,s,op,k,t) THEN t ELSE s.last]
(* the schedule an input section describes; c: has a section, its type ("" when  *)
(* not given), its interval (-1 when not given, steps or eighths), first/final   *)
(* (-1 when not given) and the caller's defaults d8 (eighths), dtype, dfirst,    *)
(* dfinal                                                                        *)
EvKind(c) == LET t == IF c.has /\ c.type # "" THEN c.type ELSE c.dtype IN
  IF t \in {"step","cycle"} THEN "cycle" ELSE IF t \in {"time","dt"} THEN "time" ELSE "error"
EvParams(c) ==
  LET k == EvKind(c)
      opt(v,d) == IF c.has /\ v >= 0 THEN v = 1 ELSE d
  IN [kind |-> k, first |-> opt(c.first,c.dfirst), final |-> opt(c.final,c.dfinal),
      n |-> IF c.has /\ c.given THEN c.interval ELSE IF k = "cycle" THEN (c.d8 + 4) \div 8 ELSE c.d8]
===============================================================================
