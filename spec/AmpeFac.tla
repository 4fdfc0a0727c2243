-------------------------------- MODULE AmpeFac --------------------------------
(* The discrete elliptic equation  M div(D grad u) + C u = f  on nested levels. *)
(* s = [lev, lo, hi, per, bk, bg, q, K]: levels; domain box of the coarsest     *)
(* level; periodic directions (0/1); for each wall (lower and upper of each     *)
(* direction) the kind (1 value, 2 slope) and the value; 1/h of the coarsest    *)
(* level; and a scale K that every 1/(1+ratio) and mean over finer sides        *)
(* divides.  Fluxes and rows below are K times the real ones.                   *)
EXTENDS AmpeAmr

FLo(s,l,d) == s.lo[d]*RZero(s.lev,l,d)
FHi(s,l,d) == (s.hi[d]+1)*RZero(s.lev,l,d) - 1
FQ(s,l,d) == s.q[d]*RZero(s.lev,l,d)
FWrap(s,l,c) == [d \in DOMAIN c |-> IF s.per[d] = 0 THEN c[d] ELSE FLo(s,l,d) + ((c[d] - FLo(s,l,d)) % (FHi(s,l,d) - FLo(s,l,d) + 1))]
\* the cell at the mirrored position across direction d under the same coarser cell
Opposite(s,l,d,c) == LET r == s.lev[l].r IN [e \in DOMAIN c |-> IF e = d THEN c[e] ELSE r[e]*(c[e] \div r[e]) + r[e] - 1 - (c[e] % r[e])]

\* flux through side x of level l normal to d, for the field U(level,cell), diffusion E(level,d,side); w = 0: homogeneous walls
FluxK(s,U(_,_),E(_,_,_),w,l,d,x) ==
  LET a == Dn(x,d)  q == FQ(s,l,d)  e == E(l,d,x)
      A == FWrap(s,l,a)  B == FWrap(s,l,x)
      g == w*s.bg[2*d - (IF a[d] < FLo(s,l,d) THEN 1 ELSE 0)]
      k == s.bk[2*d - (IF a[d] < FLo(s,l,d) THEN 1 ELSE 0)]
      n == s.K \div (1 + s.lev[l].r[d])
      In(y) == OnLevel(s.lev,l,y)
      Below(y) == U(l-1, CoarseOf(s.lev,l,y))
  IN IF s.per[d] = 0 /\ a[d] < FLo(s,l,d) THEN (IF k = 1 THEN s.K*e*q*2*(U(l,B) - g) ELSE -(s.K*e*g))
     ELSE IF s.per[d] = 0 /\ x[d] > FHi(s,l,d) THEN (IF k = 1 THEN s.K*e*q*2*(g - U(l,A)) ELSE s.K*e*g)
     ELSE IF In(A) /\ In(B) THEN s.K*e*q*(U(l,B) - U(l,A))
     ELSE IF In(B) THEN n*e*q*(2*(U(l,B) - Below(A)) + U(l,Opposite(s,l,d,B)) - U(l,B))
     ELSE n*e*q*(2*(Below(B) - U(l,A)) - U(l,Opposite(s,l,d,A)) + U(l,A))
\* the flux the composite grid has there, seen from the uncovered cell c: where the neighbour is refined, the mean of the finer ones
CompFluxK(s,U(_,_),E(_,_,_),w,l,d,x,c) ==
  LET o == FWrap(s,l,IF x = c THEN Dn(x,d) ELSE x)
      r == s.lev[l+1].r
      FF == Box([k \in DOMAIN x |-> x[k]*r[k]], [k \in DOMAIN x |-> IF k = d THEN x[k]*r[k] ELSE x[k]*r[k] + r[k]-1])
  IN IF Covered(s.lev,l,o) THEN SumOn(FF, LAMBDA y : FluxK(s,U,E,w,l+1,d,y)) \div Cardinality(FF) ELSE FluxK(s,U,E,w,l,d,x)
\* K times (M div(D grad u) + C u) at an uncovered cell; F gives the flux at (direction, side)
RowK(s,F(_,_),m,c0,u,l,c) == m*SumD(Len(c), LAMBDA d : FQ(s,l,d)*(F(d,Up(c,d)) - F(d,c))) + s.K*c0*u
OpK(s,U(_,_),E(_,_,_),M(_,_),C(_,_),w,l,c) == RowK(s, LAMBDA d,x : CompFluxK(s,U,E,w,l,d,x,c), M(l,c), C(l,c), U(l,c), l, c)
\* the same on one level by itself with the next coarser one held fixed
LevK(s,U(_,_),E(_,_,_),M(_,_),C(_,_),w,l,c) == RowK(s, LAMBDA d,x : FluxK(s,U,E,w,l,d,x), M(l,c), C(l,c), U(l,c), l, c)
\* coefficient of the row's own unknown away from walls and finer or coarser cells
DiagK(s,E(_,_,_),M(_,_),C(_,_),l,c) == s.K*(C(l,c) - M(l,c)*SumD(Len(c), LAMBDA d : Sq(FQ(s,l,d))*(E(l,d,c) + E(l,d,Up(c,d)))))
\* how much rounding every value of the field by half a unit can change a row
ErrK(s,E(_,_,_),M(_,_),C(_,_),l,c) == s.K*(Abs(C(l,c)) + 4*Abs(M(l,c))*SumD(Len(c), LAMBDA d : Sq(FQ(s,l,d))*(Abs(E(l,d,c)) + Abs(E(l,d,Up(c,d))))))
\* cells are coloured by their distance from the lower corner of their box
BoxOfCell(lev,l,c) == CHOOSE i \in DOMAIN lev[l].boxes : InBox(c, lev[l].boxes[i].lo, lev[l].boxes[i].hi)
IsRed(lev,l,c) == LET b == lev[l].boxes[BoxOfCell(lev,l,c)].lo IN (IF Len(c) = 2 THEN c[1] - b[1] + c[2] - b[2] ELSE c[1] + c[2] + c[3]) % 2 = 0
\* mean over the finer cells
FineUnder(lev,l,c) == LET r == lev[l+1].r IN Box([d \in DOMAIN c |-> c[d]*r[d]], [d \in DOMAIN c |-> c[d]*r[d] + r[d] - 1])
=============================================================================
