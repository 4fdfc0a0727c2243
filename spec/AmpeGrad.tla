------------------------------ MODULE AmpeGrad ------------------------------
(* Discrete differences, gradients, Laplacian, gradient moduli, averages.     *)
(* h is given by its inverse (ih[d] = 1/h_d, an integer for the dyadic        *)
(* spacings used); results are multiplied by the common denominator named in  *)
(* each operator.                                                             *)
EXTENDS AmpeBase

\* difference across side c of direction d
Diff(v,d,c) == At(v,c) - At(v,Dn(c,d))
\* transverse-ghosted set of sides on which differences are defined
DiffSides(lo,hi,d) ==
  Box([e \in 1..Len(lo) |-> IF e = d THEN lo[e] ELSE lo[e]-1],
      [e \in 1..Len(hi) |-> hi[e]+1])

\* 2 * cell gradient along d from side differences
GradCell2(df,ih,d,c) == ih[d] * (At(df[d],Up(c,d)) + At(df[d],c))

\* 4 * gradient along e on a side of normal d
GradSide4(df,ih,d,e,c) ==
  IF d = e THEN 4 * ih[d] * At(df[d],c)
  ELSE ih[e] * ( At(df[e],c) + At(df[e],Up(c,e))
               + At(df[e],Dn(c,d)) + At(df[e],Up(Dn(c,d),e)) )

\* 12 * isotropic gradient: the normal difference is averaged (1,10,1)/12 (2D)
\* with its transverse neighbours, the transverse one as in GradSide4
RECURSIVE IsoSum(_,_,_,_)
IsoSum(df,d,c,e) ==
  IF e = 0 THEN 0
  ELSE (IF e = d THEN 0 ELSE At(df[d],Up(c,e)) + At(df[d],Dn(c,e))) + IsoSum(df,d,c,e-1)
GradIso12(df,ih,d,e,c) ==
  LET D == Len(c) IN
  IF d = e THEN ih[d] * ((12 - 2*(D-1)) * At(df[d],c) + IsoSum(df,d,c,D))
  ELSE 3 * GradSide4(df,ih,d,e,c)

Lap(f,ih,c) ==
  SumD(Len(c), LAMBDA d : ih[d]*ih[d]*(At(f,Up(c,d)) - 2*At(f,c) + At(f,Dn(c,d))))

\* sum over the 2D sides of cell c of F(d, side)
SumSides(c, F(_,_)) == SumD(Len(c), LAMBDA d : F(d,c) + F(d,Up(c,d)))

ISqrt(n) == CHOOSE r \in 0..200 : r*r = n
\* squared norm of the (depth x dim) vector g[m][e] at c
Norm2(g,depth,D,c) == SumM(depth, LAMBDA m : SumD(D, LAMBDA e : Sq(At(g[m][e],c))))
=============================================================================
