------------------------------ MODULE TraceGrad ------------------------------
EXTENDS TraceBase, AmpeGrad

CheckSides(out, F(_,_), W(_)) == \A d \in 1..Len(out) : WrittenF(out[d], Filler, W(d), LAMBDA c : F(d,c))

\* the visualisation copies of the differences on the lower sides of each cell (filled when asked for):
\* component m of direction d is number m + M(d-1)
CellCopies(e, cells, M, F(_,_,_)) ==
  Chk("cellcopy", \A n \in {"cell","cell2"} \cap DOMAIN e.out : \A k \in 1..(M*e.dim) :
     WrittenF(e.out[n][k], Filler, IF e.p.visit = 1 THEN cells ELSE {}, LAMBDA c : F(1 + ((k-1) \div M), 1 + ((k-1) % M), c)))

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih
      cells == Box(lo,hi)
      M == IF "depth" \in DOMAIN e.p THEN e.p.depth ELSE 0
      SB(d) == SideBox(lo,hi,d)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "diffs" ->
       Chk("difference", CheckSides(e.out.diff, LAMBDA d,c : Diff(e.in.v,d,c), LAMBDA d : DiffSides(lo,hi,d)))
  \cup CellCopies(e, cells, 1, LAMBDA d,m,c : Diff(e.in.v,d,c))
  [] e.ev = "quatdiffs" ->
       Chk("difference", \A d \in 1..D : \A m \in 1..M :
         WrittenF(e.out.diff[d][m], Filler, DiffSides(lo,hi,d), LAMBDA c : Diff(e.in.q[m],d,c)))
  \cup CellCopies(e, cells, M, LAMBDA d,m,c : Diff(e.in.q[m],d,c))
  [] e.ev = "grad_cell" ->
       Chk("gradient", \A d \in 1..D : WrittenF(e.out.grad[d], Filler, cells, LAMBDA c : GradCell2(e.in.diff,ih,d,c)))
  [] e.ev = "quatgrad_cell" ->
       Chk("gradient", \A d \in 1..D : \A m \in 1..M :
          WrittenF(e.out.grad[m][d], Filler, cells,
                   LAMBDA c : ih[d] * (At(e.in.diff[d][m],Up(c,d)) + At(e.in.diff[d][m],c))))
  [] e.ev = "grad_side" ->
       Chk("gradient", \A d,x \in 1..D :
          WrittenF(e.out.grad[d][x], Filler, SB(d), LAMBDA c : GradSide4(e.in.diff,ih,d,x,c)))
  [] e.ev = "grad_side_isotropic" ->
       Chk("gradient", \A d,x \in 1..D :
          WrittenF(e.out.grad[d][x], Filler, SB(d), LAMBDA c : GradIso12(e.in.diff,ih,d,x,c)))
  [] e.ev = "quatgrad_side" ->
       Chk("gradient", \A m \in 1..M : LET df == [d \in 1..D |-> e.in.diff[d][m]] IN
         \A d,x \in 1..D :
          WrittenF(e.out.grad[d][m][x], Filler, SB(d), LAMBDA c : GradSide4(df,ih,d,x,c)))
  [] e.ev = "quatgrad_side_isotropic" ->
       Chk("gradient", \A m \in 1..M : LET df == [d \in 1..D |-> e.in.diff[d][m]] IN
         \A d,x \in 1..D :
          WrittenF(e.out.grad[d][m][x], Filler, SB(d), LAMBDA c : GradIso12(df,ih,d,x,c)))
  [] e.ev = "laplacian" ->
       Chk("laplacian", WrittenF(e.out.rhs, Filler, cells, LAMBDA c : e.p.coeff * Lap(e.in.field,ih,c)))
  [] e.ev = "side2cell" ->
       Chk("average", WrittenF(e.out.c, Filler, cells,
          LAMBDA c : (12 \div (2*D)) * SumSides(c, LAMBDA d,s : At(e.in.s[d],s))))
  [] e.ev = "mod_sides" ->
       Chk("modulus", WrittenF(e.out.mod, Filler, cells,
          LAMBDA c : SumSides(c, LAMBDA d,s : ISqrt(Norm2(e.in.grad[d],M,D,s)))))
  [] e.ev = "mod_harm" ->
       Chk("modulus", WrittenF(e.out.mod, Filler, cells,
          LAMBDA c : SumSides(c, LAMBDA d,s : 4 \div ISqrt(Norm2(e.in.grad[d],M,D,s) + e.p.floor2))))
  [] e.ev = "mod_compact" ->   \* log: 2*|.|^2
       Chk("modulus", WrittenF(e.out.mod, Filler, cells,
          LAMBDA c : SumSides(c, LAMBDA d,s : SumM(M, LAMBDA m : Sq(At(e.in.grad[d][m][d],s))))))
  [] e.ev = "mod_cell" ->
       Chk("modulus", WrittenF(e.out.mod, Filler, cells, LAMBDA c : Norm2(e.in.grad,M,D,c)))
  [] e.ev = "quatavg" ->
       Chk("average", \A m \in 1..M : WrittenF(e.out.avg[m], Filler, cells,
          LAMBDA c : 4*At(e.in.q[m],c) + SumD(D, LAMBDA d : At(e.in.q[m],Up(c,d)) + At(e.in.q[m],Dn(c,d)))))
  [] e.ev = "smoothquat" ->
       Chk("smoothing", \A m \in 1..M : Written(e.out.qout[m], e.pre.qout[m],
          {c \in cells : At(e.in.phase,c) < e.p.thr},
          LAMBDA c : 24*At(e.in.q[m],c) + (IF D = 2 THEN 3 ELSE 4) *
             SumD(D, LAMBDA d : At(e.in.diff[d][m],Up(c,d)) - At(e.in.diff[d][m],c))))
  [] e.ev = "velocity" ->
       Chk("velocity", WrittenF(e.out.vel, Filler, cells,
          LAMBDA c : At(e.in.phidot,c) \div
             ISqrt(SumD(D, LAMBDA d : Sq(At(e.in.grad[d],c))) + Sq(e.p.thr))))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
