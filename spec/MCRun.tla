-------------------------------- MODULE MCRun --------------------------------
(* A run and the run restarted from one of the files it wrote, in lock step, for *)
(* every schedule, step length and stopping point within bounds.                 *)
EXTENDS AmpeRun, FiniteSets, TLC
CONSTANTS DT, NS, ENDS, MAXK
VARIABLES c, lim, pc, s, lv, plots, s2, plots2, f, out2, out1
vars == <<c,lim,pc,s,lv,plots,s2,plots2,f,out2,out1>>
Off == [kind |-> "cycle", n |-> 0, first |-> FALSE, final |-> FALSE]
P(k,n,a,b) == [kind |-> k, n |-> n, first |-> a, final |-> b]
Scheds == { P(k,n,a,b) : k \in {"cycle","time"}, n \in NS, a \in BOOLEAN, b \in BOOLEAN }
None == [k |-> -1]
Init == /\ \E v \in Scheds, r \in { P("cycle",n,a,b) : n \in {1,2}, a \in BOOLEAN, b \in {TRUE} } :
              c = [iv |-> [v |-> v, r |-> r, ti |-> P("cycle",1,FALSE,TRUE), g |-> Off, rg |-> P("cycle",2,FALSE,TRUE)], silent |-> FALSE, wic |-> -1]
        /\ \E e \in ENDS, m \in {MAXK - 1, Forever} : lim = RunLimits([delta |-> -1, max |-> m, maxts |-> -1, start |-> -1, end |-> e, amr |-> TRUE])
        /\ pc = "pre" /\ s = RunState0(lim) /\ lv \in {1,2} /\ plots = <<>>
        /\ s2 = None /\ plots2 = <<>> /\ f = None /\ out2 = {} /\ out1 = {}
Vis(o) == { x \in o : x[1] = "visit" }
Add(p,o) == IF Vis(o) = {} THEN p ELSE Append(p, CHOOSE x \in Vis(o) : TRUE)
Pre == /\ pc = "pre" /\ pc' = "test" /\ s' = RunPreNext(c,s) /\ plots' = Add(plots,RunPre(c,s))
       /\ UNCHANGED <<c,lim,lv,s2,plots2,f,out2,out1>>
Step == /\ pc = "test" /\ RunGoes(lim,s) /\ pc' = "post"
        /\ \E d \in DT : s' = RunStepped(s,d) /\ s2' = IF s2 = None THEN s2 ELSE RunStepped(s2,d)
        /\ out1' = {} /\ out2' = {}
        /\ UNCHANGED <<c,lim,lv,plots,plots2,f>>
Post == /\ pc = "post" /\ pc' = "saved"
        /\ s' = RunPostNext(c,s,lv) /\ out1' = RunPost(c,s,lv) /\ plots' = Add(plots,RunPost(c,s,lv))
        /\ IF s2 = None THEN s2' = s2 /\ out2' = {} /\ plots2' = plots2
           ELSE s2' = RunPostNext(c,s2,lv) /\ out2' = RunPost(c,s2,lv) /\ plots2' = Add(plots2,RunPost(c,s2,lv))
        /\ f' = IF Obs("restart",s,0) \in RunPost(c,s,lv) THEN RunFile(lim,s) ELSE f
        /\ UNCHANGED <<c,lim,lv>>
\* possibly another run starts from the file just written
Next == \/ Pre \/ Step \/ Post
        \/ pc = "saved" /\ pc' = "test" /\ UNCHANGED <<c,lim,lv,s,plots,s2,plots2,f,out1,out2>>
        \/ /\ pc = "saved" /\ s2 = None /\ f.k = s.k /\ pc' = "test" /\ out1' = {} /\ out2' = {}
           /\ s2' = RunPreNext(c,RunStateF(f)) /\ plots2' = Add(<<>>,RunPre(c,RunStateF(f)))
           /\ UNCHANGED <<c,lim,lv,s,plots,f>>
        \/ pc = "test" /\ ~RunGoes(lim,s) /\ pc' = "done" /\ plots' = Add(plots,RunEnd(c,s)) /\ UNCHANGED <<c,lim,lv,s,s2,plots2,f,out1,out2>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
V == c.iv.v
PlotAt(k) == \E i \in DOMAIN plots : plots[i][2] = k
Ordered == \A i \in 1..Len(plots)-1 : plots[i][3] < plots[i+1][3] /\ plots[i][2] < plots[i+1][2]
Never0 == V.n = 0 => plots = <<>>
EveryN == (pc = "saved" /\ V.kind = "cycle" /\ V.n > 0 /\ s.k % V.n = 0) => PlotAt(s.k)
OnlyN == (pc # "done" /\ V.kind = "cycle" /\ V.n > 0) => \A i \in DOMAIN plots : plots[i][2] % V.n = 0 \/ (V.first /\ i = 1)
\* a plot at every time window, never two in the same one (the first query and the end aside)
Windows == (pc = "saved" /\ V.kind = "time" /\ V.n > 0) =>
              Cardinality({ plots[i][3] \div V.n : i \in DOMAIN plots } \ {0}) = Len(SelectSeq(plots, LAMBDA x : x[3] >= V.n))
Reached == (pc = "saved" /\ V.kind = "time" /\ V.n > 0 /\ s.t >= V.n) => \E i \in DOMAIN plots : plots[i][3] \div V.n = s.t \div V.n
Limits == s.k <= lim.max /\ (pc = "done" => s.t >= lim.end \/ s.k = lim.max)
Final == (pc = "done" /\ V.n > 0 /\ V.final) => PlotAt(s.k)
\* the restarted run takes the same steps and produces the same outputs
Same == s2 # None => s2.k = s.k /\ s2.t = s.t /\ s2.dt = s.dt
SameOut == (s2 # None /\ pc = "saved" /\ out2 # {}) => out1 = out2
Filed == f # None => f.max = lim.max /\ f.end = lim.end /\ RunContinue(f,[delta |-> -1, max |-> -1, maxts |-> -1, start |-> -1, end |-> -1, amr |-> FALSE]) = lim
Ends == <>(pc = "done")
==============================================================================
