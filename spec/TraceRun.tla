------------------------------- MODULE TraceRun -------------------------------
EXTENDS TraceBase, AmpeRun

RunSilent(v) == v.has /\ (v.silent \/ v.level = 0)
RunC(e) == [iv |-> [n \in RunNames |-> EvParams(e.iv[n])], silent |-> RunSilent(e.given.verb), wic |-> e.wic]
(* blocks of outputs: before the first step, after every step, after the last    *)
RECURSIVE RunGo(_,_,_,_,_,_)
RunGo(c,lim,s,lv,dts,acc) ==
  IF ~RunGoes(lim,s) \/ Len(acc) > 60 THEN [s |-> s, blocks |-> Append(acc, RunEnd(c,s))]
  ELSE LET p == RunStepped(s,dts[(s.k % Len(dts)) + 1])
           n == RunPostNext(c,p,lv)
       IN RunGo(c,lim,n,lv,dts,Append(acc, {<<"step",p.k,s.t,p.dt,s.dt>>} \cup RunPost(c,p,lv)))
RunOf(c,lim,s,lv,dts) == RunGo(c,lim,RunPreNext(c,s),lv,dts,<<RunPre(c,s)>>)
RunBad(e) == \E n \in RunNames : EvKind(e.iv[n]) = "error" /\ (n # "rg" \/ e.lim.amr)
SetOf(x) == { x[i] : i \in DOMAIN x }
\* what must come before what in a block
Before(b,x,y) == \A i, j \in DOMAIN b : b[i][1] = x /\ b[j][1] = y => i < j
Check(e,h) ==
  CASE e.ev = "run" ->
         LET c == RunC(e)
             lim == IF e.restart THEN RunContinue(e.from,e.in) ELSE RunLimits(e.in)
             s0 == IF e.restart THEN RunStateF(e.from) ELSE RunState0(lim)
             R == RunOf(c,lim,s0,e.lv,e.dts)
             B == R.blocks
             M == Len(B)
             rdir == IF e.given.rdir # "" THEN e.given.rdir ELSE "r." \o e.run
             v == e.given.verb
             basic == IF ~v.has THEN 1 ELSE IF v.silent THEN 0 ELSE IF v.level >= 0 THEN v.level ELSE 1
             same(i) == SetOf(e.blocks[i]) = B[i] /\ Len(e.blocks[i]) = Cardinality(B[i])
             plain(x) == SelectSeq(x, LAMBDA o : o[1] # "visit")
             lastok == same(M) \/ (M = 2 /\ Obs("visit",s0,0) \in B[M] /\ SetOf(e.blocks[M]) = B[M] \ {Obs("visit",s0,0)})
             files(i) == IF \E x \in B[i] : x[1] = "restart" THEN <<CHOOSE x \in B[i] : x[1] = "restart">> ELSE <<>>
             fl == FlattenSeq([i \in 1..M |-> files(i)])
         IN IF RunBad(e) THEN Chk("accepted", ~e.ok)
            ELSE Chk("accepted", e.ok) \cup (IF ~e.ok THEN {} ELSE
             Chk("limits", e.cfg = <<s0.k,s0.t,s0.dt,lim.max,lim.start,lim.end,IF lim.amr THEN 1 ELSE 0>>)
             \cup Chk("steps", Len(e.blocks) = M)
             \cup (IF Len(e.blocks) # M THEN {} ELSE
                 Chk("before", same(1)) \cup Chk("step", \A i \in 2..M-1 : same(i)) \cup Chk("after", lastok)
                 \cup Chk("order", \A i \in 1..M : Before(e.blocks[i],"post","visit") /\ Before(e.blocks[i],"visit","regrid") /\ Before(e.blocks[i],"restart","regrid") /\ Before(e.blocks[i],"visit","free")))
             \cup Chk("state", e.state = <<R.s.k,R.s.t,R.s.dt,lim.max,lim.start,lim.end,IF lim.amr THEN 1 ELSE 0>>)
             \cup Chk("files", Len(e.files) = Len(fl) /\ \A i \in DOMAIN fl :
                     LET f == e.files[i] IN f.num = fl[i][2] /\ f.k = fl[i][2] /\ f.t = fl[i][3] /\ f.max = lim.max /\ f.start = lim.start /\ f.end = lim.end /\ f.amr = lim.amr)
             \cup Chk("previous step", \A i \in DOMAIN fl : Len(e.files) >= i =>
                     e.files[i].dt = (IF fl[i][2] = s0.k THEN s0.dt ELSE e.dts[((fl[i][2]-1) % Len(e.dts)) + 1]))
             \cup Chk("names", e.names.visit = (IF EvActive(c.iv["v"]) THEN (IF e.given.visit # "" THEN e.given.visit ELSE "v." \o e.run) ELSE "") /\ e.names.nproc = (IF EvActive(c.iv["v"]) THEN (IF e.given.nproc >= 0 THEN e.given.nproc ELSE 1) ELSE -1)
                                /\ e.names.rdir = rdir /\ \A i \in DOMAIN e.dirs : e.dirs[i] = rdir)
             \cup Chk("initial file", e.written = (IF e.wic >= 0 THEN e.given.icfile ELSE ""))
             \cup Chk("verbosity", e.level = <<basic, IF ~v.has \/ basic = 0 THEN 0 ELSE IF v.amr >= 0 THEN v.amr ELSE 1>>)
             \cup Chk("geometry", e.dom = [k \in DOMAIN e.n |-> <<0,e.n[k]-1,IF e.per[k] > 0 THEN 1 ELSE 0,IF e.per[k] > 0 THEN e.n[k] ELSE 0>>]
                                   /\ \A k \in DOMAIN e.n : e.xs[k][1] = e.x[k][1] /\ e.xs[k][2] = e.x[k][2] /\ e.xs[k][3] = e.x[k][2]-e.x[k][1])
             \cup Chk("periodic", e.allper = (\A k \in DOMAIN e.per : e.per[k] > 0))
             \cup Chk("grid levels", e.levels = e.lv))
    [] OTHER -> {"unknown"}

TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, LAMBDA e, h : h)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
================================================================================
