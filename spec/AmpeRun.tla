------------------------------- MODULE AmpeRun -------------------------------
(* Run control: what a simulation run does, step after step.  Times are integers *)
(* in eighths.  A configuration c has the run limits and five schedules (records *)
(* in the form AmpeEvents!EvParams): v plots, ti the step line, r restart files, *)
(* g grain diagnostics, rg regridding.  A state s is the step number k, the time *)
(* t, the previous step's length dt and the schedules' states.  An observable is *)
(* <<what, step, time, extra>>.                                                  *)
EXTENDS Integers, Sequences, AmpeEvents
RunNames == {"v","ti","r","g","rg"}
Forever == 2147483647
(* the limits of a run from the input alone, or continuing from a restart file f;*)
(* not given: -1                                                                 *)
RunLimits(in) ==
  [max |-> IF in.delta >= 0 THEN in.delta ELSE IF in.max >= 0 THEN in.max ELSE IF in.maxts >= 0 THEN in.maxts ELSE Forever,
   start |-> IF in.start >= 0 THEN in.start ELSE 0, end |-> in.end, amr |-> in.amr]
RunContinue(f,in) ==
  [max |-> IF in.max >= 0 THEN in.max ELSE IF in.maxts >= 0 THEN in.maxts ELSE IF in.delta >= 0 THEN f.k + in.delta ELSE f.max,
   start |-> f.start, end |-> IF in.end >= 0 THEN in.end ELSE f.end, amr |-> f.amr]
RunState0(lim) == [k |-> 0, t |-> lim.start, dt |-> 0, ev |-> [n \in RunNames |-> EvInit]]
RunStateF(f) == [k |-> f.k, t |-> f.t, dt |-> f.dt, ev |-> [n \in RunNames |-> EvInit]]
RunGoes(lim,s) == s.t < lim.end /\ s.k < lim.max
RunFile(lim,s) == [k |-> s.k, t |-> s.t, dt |-> s.dt, max |-> lim.max, start |-> lim.start, end |-> lim.end, amr |-> lim.amr]

RunAsk(c,s,n,op) == EvFires(c.iv[n],s.ev[n],op,s.k,s.t)
RunAsked(c,s,ns,op) == [s EXCEPT !.ev = [n \in RunNames |-> IF n \in ns THEN EvNext(c.iv[n],@[n],op,s.k,s.t) ELSE @[n]]]
Maybe(b,o) == IF b THEN {o} ELSE {}
Obs(w,s,x) == <<w,s.k,s.t,x>>
\* outputs before the first step
RunPre(c,s) ==
  {Obs("pre",s,0)} \cup Maybe(RunAsk(c,s,"v","first"),Obs("visit",s,0))
  \cup Maybe(~c.silent /\ RunAsk(c,s,"ti","first"),Obs("line",s,0))
  \cup Maybe(RunAsk(c,s,"r","first"),Obs("restart",s,0))
  \cup Maybe(RunAsk(c,s,"g","first"),Obs("grains",s,0))
RunPreNext(c,s) == RunAsked(c,s,RunNames,"first")
\* a step of length d: the state after it, its outputs and the state after those
RunStepped(s,d) == [s EXCEPT !.k = @ + 1, !.t = @ + d, !.dt = d]
RunPost(c,s,lv) ==
  {Obs("post",s,0)} \cup Maybe(~c.silent /\ RunAsk(c,s,"ti","passed"),Obs("line",s,s.dt))
  \cup Maybe(RunAsk(c,s,"r","passed"),Obs("restart",s,0))
  \cup Maybe(RunAsk(c,s,"g","passed"),Obs("grains",s,0))
  \cup Maybe(RunAsk(c,s,"v","passed"),Obs("visit",s,0))
  \cup Maybe(lv > 1 /\ RunAsk(c,s,"rg","passed"),Obs("regrid",s,0))
RunPostNext(c,s,lv) == RunAsked(c,s,IF lv > 1 THEN RunNames ELSE RunNames \ {"rg"},"passed")
\* when the run is over; without any step a final plot may be left out
RunEnd(c,s) ==
  {Obs("end",s,0), Obs("free",s,0)}
  \cup Maybe(RunAsk(c,s,"v","last"),Obs("visit",s,0))
  \cup Maybe(RunAsk(c,s,"r","last"),Obs("restart",s,0))
  \cup Maybe(c.wic >= 0,Obs("initial file",s,c.wic))
==============================================================================
