------------------------------ MODULE AmpeInit ------------------------------
(* Initial-condition files written by utils/make_*.py: which cells belong to  *)
(* which grain, and what every field holds there.  Lengths are in 1/120 of a  *)
(* cell; cells are numbered with x fastest; cell i spans [120 i, 120 i+120].  *)
EXTENDS AmpeBase

CellU == 120
CellsOf(n) == n[1]*n[2]*n[3]
CellAt(n,c) == << (c-1) % n[1], ((c-1) \div n[1]) % n[2], (c-1) \div (n[1]*n[2]) >>
Mid(n,c) == LET x == CellAt(n,c) IN [d \in 1..3 |-> CellU*x[d] + 60]

MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
\* squared distance along one axis, over the periodic images when the axis is periodic
Ax2(a,b,len,per) == IF per = 1 THEN MinOf({ Sq(a-b+k*len) : k \in {-1,0,1} }) ELSE Sq(a-b)
Dist2(n,per,c,ctr) == LET m == Mid(n,c) IN
  Ax2(m[1],ctr[1],CellU*n[1],per[1]) + Ax2(m[2],ctr[2],CellU*n[2],per[2]) + Ax2(m[3],ctr[3],CellU*n[3],per[3])

InBall(n,per,c,s) == Dist2(n,per,c,s.c) < Sq(s.r)
\* the last ball of the list that contains the cell, 0 if none
Owner(n,per,c,balls) == LET B == { k \in 1..Len(balls) : InBall(n,per,c,balls[k]) } IN
                        IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j <= k
Nearest(n,per,c,balls) == { k \in 1..Len(balls) : \A j \in 1..Len(balls) : Dist2(n,per,c,balls[k].c) <= Dist2(n,per,c,balls[j].c) }

\* number of cells painted by each ball (overlaps counted once per ball)
CountBalls(n,per,balls) == SumTo(Len(balls), LAMBDA k : Cardinality({ c \in 1..CellsOf(n) : InBall(n,per,c,balls[k]) }))

\* slabs orthogonal to an axis: both faces belong to the slab
InSlab(n,c,s,ax) == LET m == Mid(n,c) IN Abs(m[ax]-s.c) <= s.r

\* composition, times the outside (or inside) volume, that leaves the domain average at nom
OutFor(nom,ci,vol,vs) == nom*vol - ci*vs
InFor(nom,co,vol,vs)  == nom*vol - co*(vol-vs)
=============================================================================
