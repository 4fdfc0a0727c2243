-------------------------------- MODULE AmpeAmr --------------------------------
(* Nested levels of boxes.  lev[l] = [r, boxes]: the ratio to the level below  *)
(* (coarser) and the sequence of disjoint boxes [lo,hi] in the level's own      *)
(* index space.                                                                 *)
EXTENDS AmpeBase

RECURSIVE RZero(_,_,_)
RZero(lev,l,d) == IF l = 1 THEN 1 ELSE lev[l].r[d] * RZero(lev,l-1,d)
RProd(lev,l,D) == LET F(d) == RZero(lev,l,d) IN F(1) * F(2) * (IF D = 3 THEN F(3) ELSE 1)
OnLevel(lev,l,c) == \E i \in DOMAIN lev[l].boxes : InBox(c, lev[l].boxes[i].lo, lev[l].boxes[i].hi)
LevelCells(lev,l) == UNION { Box(lev[l].boxes[i].lo, lev[l].boxes[i].hi) : i \in DOMAIN lev[l].boxes }
CoarseOf(lev,l,c) == [d \in DOMAIN c |-> c[d] \div lev[l].r[d]]        \* the cell of level l-1 under c
Covered(lev,l,c) ==
  l < Len(lev) /\ \E i \in DOMAIN lev[l+1].boxes :
     LET b == lev[l+1].boxes[i]  r == lev[l+1].r IN InBox(c, [d \in DOMAIN c |-> b.lo[d] \div r[d]], [d \in DOMAIN c |-> b.hi[d] \div r[d]])
\* cell volume in units of the finest one
CellVol(lev,l,D) == RProd(lev,Len(lev),D) \div RProd(lev,l,D)
\* the sides (normal to d) of level l that make up side x of the next coarser level; none unless level l has all of them
FinerFaces(lev,l,d,x) ==
  IF l > Len(lev) THEN {}
  ELSE LET r == lev[l].r
           F == Box([k \in DOMAIN x |-> x[k]*r[k]], [k \in DOMAIN x |-> IF k = d THEN x[k]*r[k] ELSE x[k]*r[k] + r[k]-1])
       IN IF \A y \in F : OnLevel(lev,l,y) \/ OnLevel(lev,l,Dn(y,d)) THEN F ELSE {}
\* composite weight
Weight(lev,l,c) == IF Covered(lev,l,c) THEN 0 ELSE CellVol(lev,l,Len(c))
\* sum of F(l,c) over all levels
SumLevels(lev,F(_,_)) == SumTo(Len(lev), LAMBDA l : SumOn(LevelCells(lev,l), LAMBDA c : F(l,c)))
\* the middle f/16 of a domain of n[d] coarse cells starting at cell 0: -1 outside, 1 inside, 0 on its boundary (by cell centres)
Middle1(x2,w,f) == IF 16*x2 < w*(16-f) \/ 16*x2 > w*(16+f) THEN -1 ELSE IF 16*x2 = w*(16-f) \/ 16*x2 = w*(16+f) THEN 0 ELSE 1
Middle(lev,l,n,f,c) ==
  LET S == { Middle1(2*c[d]+1, n[d]*RZero(lev,l,d), f[d]) : d \in DOMAIN c } IN IF -1 \in S THEN -1 ELSE IF 0 \in S THEN 0 ELSE 1
=============================================================================
