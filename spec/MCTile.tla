-------------------------------- MODULE MCTile --------------------------------
(* Steps of transport on a ring of N cells cut into patches, part of it covered *)
(* by a level refined by 2 that is itself cut into patches.  A step is: fill     *)
(* ghosts, fluxes, fluxes of covered faces taken from the finer level, rates,    *)
(* update, covered cells averaged.  Within each stage the patches act in any     *)
(* order, on their own data only (plus what they read when ghosts are filled).   *)
(* Whatever the cuts and orders: the outcome is that of one patch per level, the *)
(* two patches next to a face see the same flux there, and the total never       *)
(* changes.                                                                      *)
EXTENDS AmpeAmr
CONSTANT N, V, STEPS
VARIABLES ca, cb,        \* first cells of the patches of the coarse and fine level
          fa, fb,        \* coarse cells fa..fb are refined
          u, v,          \* contents
          gh, fl, rt,    \* ghosts, fluxes, rates of each patch <<level, first cell>>
          st, done, k, tot
vars == <<ca,cb,fa,fb,u,v,gh,fl,rt,st,done,k,tot>>

Cut(l) == IF l = 1 THEN ca ELSE cb
Lo(l) == IF l = 1 THEN 0 ELSE 2*fa
Hi(l) == IF l = 1 THEN N-1 ELSE 2*fb+1
HiOf(l,a) == LET S == { x \in Cut(l) : x > a } IN IF S = {} THEN Hi(l) ELSE (CHOOSE x \in S : \A y \in S : x <= y) - 1
Patches == {1} \X ca \cup {2} \X cb
PCells(p) == p[2]..HiOf(p[1],p[2])
PFaces(p) == p[2]..(HiOf(p[1],p[2])+1)
PatchOf(l,x) == CHOOSE p \in Patches : p[1] = l /\ x \in PCells(p)
Has(l,x) == x >= Lo(l) /\ x <= Hi(l)
Under(x) == x >= fa /\ x <= fb
Mod(x,m) == ((x % m) + m) % m

\* diffusion that depends on where it happens
Coef(l,x) == 1 + ((IF l = 1 THEN 2*Mod(x,N) ELSE Mod(x,2*N)) % 3)
\* contents of a cell of a level, or of the coarse cell below it
Val(l,x,uu,vv) == IF l = 1 THEN uu[Mod(x,N)] ELSE IF Has(2,Mod(x,2*N)) THEN vv[Mod(x,2*N)] ELSE uu[Mod(x,2*N) \div 2]
Flux(l,x,left,right) == l*Coef(l,x)*(right - left)

\* one patch per level
RefFlux(l,x,uu,vv) == Flux(l,x,Val(l,x-1,uu,vv),Val(l,x,uu,vv))
RefComp(x,uu,vv) == IF Under(Mod(x,N)) \/ Under(Mod(x-1,N)) THEN RefFlux(2,2*Mod(x,N) + (IF Under(Mod(x-1,N)) /\ Mod(x,N) = 0 THEN 2*N ELSE 0),uu,vv) ELSE RefFlux(1,x,uu,vv)
RefV(uu,vv) == [x \in DOMAIN vv |-> vv[x] + 2*(RefFlux(2,x+1,uu,vv) - RefFlux(2,x,uu,vv))]
RefU(uu,vv) == [x \in DOMAIN uu |-> uu[x] + RefComp(x+1,uu,vv) - RefComp(x,uu,vv)]
Mean(uu,vv) == [x \in DOMAIN uu |-> IF Under(x) THEN (vv[2*x] + vv[2*x+1]) \div 2 ELSE uu[x]]
Total == SumOn(0..(N-1), LAMBDA x : IF Under(x) THEN 0 ELSE 2*u[x]) + SumOn(DOMAIN v, LAMBDA x : v[x])

Nil == [p \in Patches |-> <<>>]
Init ==
  /\ \E a \in 0..(N-1), b \in 0..(N-1) : a <= b /\ b - a < N-1 /\ fa = a /\ fb = b
  /\ ca \in { S \cup {0} : S \in SUBSET (1..(N-1)) }
  /\ cb \in { { 2*x : x \in S \cup {fa} } : S \in SUBSET ((fa+1)..fb) }
  /\ v \in [(2*fa)..(2*fb+1) -> V]
  /\ \E uu \in [{ x \in 0..(N-1) : ~Under(x) } -> V] : u = [x \in 0..(N-1) |-> IF Under(x) THEN (v[2*x] + v[2*x+1]) \div 2 ELSE uu[x]]
  /\ gh = Nil /\ fl = Nil /\ rt = Nil
  /\ st = "fill" /\ done = {} /\ k = 0 /\ tot = Total

Work(p) ==
  LET l == p[1] a == p[2] b == HiOf(l,a) IN
  CASE st = "fill" -> /\ gh' = [gh EXCEPT ![p] = [x \in (a-1)..(b+1) |-> Val(l,x,u,v)]]
                      /\ UNCHANGED <<fl,rt,u,v>>
    [] st = "flux" -> /\ fl' = [fl EXCEPT ![p] = [x \in PFaces(p) |-> Flux(l,x,gh[p][x-1],gh[p][x])]]
                      /\ gh' = [gh EXCEPT ![p] = <<>>]
                      /\ UNCHANGED <<rt,u,v>>
    [] st = "comp" -> \* fluxes of faces the finer level has, on either side of them
                      /\ fl' = IF l = 2 THEN fl ELSE
                               [fl EXCEPT ![p] = [x \in PFaces(p) |->
                                  LET F == { q \in {2} \X cb : \E y \in PFaces(q) : y % 2 = 0 /\ Mod(y \div 2,N) = Mod(x,N) } IN
                                  IF F = {} THEN fl[p][x]
                                  ELSE LET q == CHOOSE q \in F : TRUE  y == CHOOSE y \in PFaces(q) : y % 2 = 0 /\ Mod(y \div 2,N) = Mod(x,N) IN fl[q][y]]]
                      /\ UNCHANGED <<gh,rt,u,v>>
    [] st = "rate" -> /\ rt' = [rt EXCEPT ![p] = [x \in PCells(p) |-> l*(fl[p][x+1] - fl[p][x])]]
                      /\ UNCHANGED <<gh,fl,u,v>>
    [] st = "add"  -> /\ u' = IF l = 1 THEN [x \in DOMAIN u |-> IF x \in PCells(p) THEN u[x] + rt[p][x] ELSE u[x]] ELSE u
                      /\ v' = IF l = 2 THEN [x \in DOMAIN v |-> IF x \in PCells(p) THEN v[x] + rt[p][x] ELSE v[x]] ELSE v
                      /\ rt' = [rt EXCEPT ![p] = <<>>] /\ fl' = [fl EXCEPT ![p] = <<>>]
                      /\ UNCHANGED gh
    [] st = "mean" -> /\ u' = IF l = 1 THEN u ELSE [x \in DOMAIN u |-> IF Under(x) /\ 2*x \in PCells(p) THEN (v[2*x] + v[2*x+1]) \div 2 ELSE u[x]]
                      /\ UNCHANGED <<gh,fl,rt,v>>
Stages == <<"fill","flux","comp","rate","add","mean">>
After(s) == LET i == CHOOSE i \in 1..6 : Stages[i] = s IN IF i = 6 THEN (IF k + 1 = STEPS THEN "end" ELSE "fill") ELSE Stages[i+1]
Act == /\ st # "end"
       /\ \E p \in Patches \ done : /\ Work(p)
                                    /\ IF done \cup {p} = Patches THEN st' = After(st) /\ done' = {} /\ k' = (IF st = "mean" THEN k + 1 ELSE k)
                                       ELSE done' = done \cup {p} /\ UNCHANGED <<st,k>>
       /\ UNCHANGED <<ca,cb,fa,fb,tot>>
Next == Act
Spec == Init /\ [][Next]_vars

Barrier == done = {}
Rates == (Barrier /\ st = "add") =>
  \A p \in Patches : \A x \in PCells(p) : rt[p][x] = (IF p[1] = 2 THEN RefV(u,v)[x] - v[x] ELSE RefU(u,v)[x] - u[x])
Faces == (Barrier /\ st = "rate") =>
  /\ \A p \in Patches, q \in Patches : p[1] = q[1] => \A x \in PFaces(p), y \in PFaces(q) :
        (IF p[1] = 1 THEN Mod(x-y,N) = 0 ELSE Mod(x-y,2*N) = 0) => fl[p][x] = fl[q][y]
Conserved == (Barrier /\ st \in {"fill","mean","end"}) => Total = tot
Averaged == (Barrier /\ st \in {"fill","end"}) => \A x \in 0..(N-1) : Under(x) => u[x] = (v[2*x] + v[2*x+1]) \div 2
=============================================================================
