------------------------------- MODULE MCEvents -------------------------------
(* A run as PFModel::Run drives it: the initial query, one query per step with   *)
(* arbitrary time steps, possibly repeated queries at the same time, the final   *)
(* query.  Checked: events never repeat at one time, none is missed, none is     *)
(* spurious.                                                                     *)
EXTENDS AmpeEvents, FiniteSets, TLC
CONSTANTS MaxN, MaxDt, MaxT
VARIABLES p, s, k, t, mode, evs, qs
vars == <<p,s,k,t,mode,evs,qs>>
Init == /\ p \in [kind : {"cycle","time"}, n : 0..MaxN, first : BOOLEAN, final : BOOLEAN]
        /\ s = EvInit /\ k = 0 /\ t = 0 /\ mode = "start" /\ evs = {} /\ qs = {}
Ask(op) == /\ evs' = IF EvFires(p,s,op,k,t) THEN evs \cup {<<k,t,op>>} ELSE evs
           /\ s' = EvNext(p,s,op,k,t)
           /\ qs' = qs \cup {<<k,t,op>>}
Start == mode = "start" /\ Ask("first") /\ mode' = "ready" /\ UNCHANGED <<p,k,t>>
Step(d) == /\ mode = "ready" /\ t + d <= MaxT /\ k' = k+1 /\ t' = t+d /\ mode' = "moved" /\ UNCHANGED <<p,s,evs,qs>>
Query == mode = "moved" /\ Ask("passed") /\ mode' = "ready" /\ UNCHANGED <<p,k,t>>
Again == mode = "ready" /\ k > 0 /\ Ask("passed") /\ UNCHANGED <<p,k,t,mode>>
Finish == mode = "ready" /\ Ask("last") /\ mode' = "done" /\ UNCHANGED <<p,k,t>>
Next == Start \/ (\E d \in 1..MaxDt : Step(d)) \/ Query \/ Again \/ Finish
Spec == Init /\ [][Next]_vars
\* at most one event per time
Once == \A a,b \in evs : a[2] = b[2] => a = b
Inactive == p.n = 0 => evs = {}
Passed(e) == e[3] = "passed"
\* in the middle of a run, exactly the scheduled steps
Cycle == p.n > 0 /\ p.kind = "cycle" =>
   \A q \in qs : Passed(q) => ((\E e \in evs : e[1] = q[1] /\ Passed(e)) <=> q[1] % p.n = 0)
\* every multiple of the interval which was passed has its event, at the first query at or after it, and no event is spurious
Time == p.n > 0 /\ p.kind = "time" =>
   /\ \A m \in 1..MaxT : (\E q \in qs : Passed(q) /\ q[2] >= m*p.n) =>
        \E e \in evs : Passed(e) /\ e[2] >= m*p.n /\ \A q \in qs : (Passed(q) /\ q[2] >= m*p.n) => e[2] <= q[2]
   /\ \A e \in evs : Passed(e) => \E m \in 1..MaxT : m*p.n <= e[2] /\ e[2] < m*p.n + MaxDt
Final == mode = "done" /\ p.n > 0 /\ p.final => \E e \in evs : e[2] = t
First == mode # "start" => ((<<0,0,"first">> \in evs) <=> (p.n > 0 /\ p.first))
===============================================================================
