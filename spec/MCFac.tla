-------------------------------- MODULE MCFac --------------------------------
(* The composite operator of AmpeFac itself, on all two-level nestings of a   *)
(* small domain and all unit fields (it is linear, so for all fields):        *)
(* constants have no flux, no amount appears or vanishes inside, what crosses *)
(* walls is all that changes the total, and on one level it is symmetric.     *)
EXTENDS AmpeFac, TLC
CONSTANTS N, RATIOS, LO
VARIABLE v
NA == <<3,3>>
NB == <<4,3>>
LA == <<-1,2>>
Lcm(a,b) == CHOOSE n \in 1..(a*b) : n % a = 0 /\ n % b = 0 /\ \A k \in 1..(n-1) : ~(k % a = 0 /\ k % b = 0)
KFor(r) == LET t == r[1]*r[2] IN Lcm((1+r[1])*r[2], (1+r[2])*r[1])
Edge == <<LO, [d \in 1..2 |-> LO[d] + N[d] - 1]>>
\* the finer box keeps one coarse cell from periodic sides, and leaves the level below it visible
Fit(per,a,b) == \A d \in 1..2 : a[d] <= b[d] /\ (per[d] = 0 \/ (a[d] > Edge[1][d] /\ b[d] < Edge[2][d]))
Cells0 == Box(Edge[1], Edge[2])
Sys(per,bk,r,a,b) ==
  [lev |-> <<[r |-> <<1,1>>, boxes |-> <<[lo |-> Edge[1], hi |-> Edge[2]]>>],
             [r |-> r, boxes |-> <<[lo |-> [d \in 1..2 |-> a[d]*r[d]], hi |-> [d \in 1..2 |-> (b[d]+1)*r[d]-1]]>>]>>,
   lo |-> Edge[1], hi |-> Edge[2], per |-> per, bk |-> <<bk,bk,bk,bk>>, bg |-> <<1,-2,3,1>>, q |-> <<1,2>>, K |-> KFor(r)]
Init == \E per \in {<<0,0>>,<<1,0>>,<<0,1>>,<<1,1>>} : \E r \in RATIOS \X RATIOS : \E a \in Cells0 : \E b \in Cells0 : \E bk \in {1,2} :
          /\ Fit(per,a,b)
          /\ v = [s |-> Sys(per,bk,r,a,b), l |-> 0, c |-> a]
Next == v.l = 0 /\ \E l \in 1..2 : \E c \in LevelCells(v.s.lev,l) : v' = [v EXCEPT !.l = l, !.c = c]
Spec == Init /\ [][Next]_v
\* a diffusion that varies from side to side, the same on both sides of a periodic boundary
E1(s,l,d,x) == LET y == FWrap(s,l,x) IN 1 + ((y[1] + 2*y[2] + d + l) % 3)
Unit1(l,c) == IF l = v.l /\ c = v.c THEN 1 ELSE 0
Row(U(_,_),w,l,c) == OpK(v.s, U, LAMBDA a,d,x : E1(v.s,a,d,x), LAMBDA a,b : 1, LAMBDA a,b : 0, w, l, c)
\* a covered cell holds no unknown of its own: the value there is that of the cells above
Mean(l,c) == IF Covered(v.s.lev,l,c) THEN 0 ELSE Unit1(l,c)
Wt(l,c) == Weight(v.s.lev,l,c)
Total(U(_,_),w) == SumLevels(v.s.lev, LAMBDA l,c : Wt(l,c)*Row(U,w,l,c))
\* sides at walls: (level, direction, side, sign) with their area in units of the finest cells
WallSum(U(_,_),w) ==
  SumLevels(v.s.lev, LAMBDA l,c : IF Covered(v.s.lev,l,c) THEN 0 ELSE
    Wt(l,c)*SumD(2, LAMBDA d : IF v.s.per[d] = 1 THEN 0 ELSE
      FQ(v.s,l,d)*((IF c[d] = FHi(v.s,l,d) THEN FluxK(v.s,U,LAMBDA a,e,x : E1(v.s,a,e,x),w,l,d,Up(c,d)) ELSE 0)
                   - (IF c[d] = FLo(v.s,l,d) THEN FluxK(v.s,U,LAMBDA a,e,x : E1(v.s,a,e,x),w,l,d,c) ELSE 0))))
Live == v.l > 0 /\ ~Covered(v.s.lev,v.l,v.c)
Conserved == Live => /\ Total(Mean,0) = WallSum(Mean,0) /\ Total(Mean,1) = WallSum(Mean,1)
                     /\ (\A i \in 1..4 : v.s.bk[i] = 2) => Total(Mean,0) = 0
Constant == (v.l = 0 /\ v.s.bk[1] = 2) => \A l \in 1..2 : \A c \in LevelCells(v.s.lev,l) : Covered(v.s.lev,l,c) \/ Row(LAMBDA a,b : 7,0,l,c) = 0
\* one level: <e_c, L e_b> = <e_b, L e_c>
One == [v.s EXCEPT !.lev = <<v.s.lev[1]>>]
Symmetric == v.l = 1 => \A b \in LevelCells(v.s.lev,1) :
   LET A(x,y) == OpK(One, LAMBDA l,z : IF z = y THEN 1 ELSE 0, LAMBDA a,d,z : E1(One,a,d,z), LAMBDA l,z : 1, LAMBDA l,z : 0, 0, 1, x)
   IN A(v.c,b) = A(b,v.c)
=============================================================================
