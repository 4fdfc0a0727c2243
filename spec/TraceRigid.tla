------------------------------ MODULE TraceRigid ------------------------------
(* Rigid-body motion of grains: pair forces integrated over the domain, and   *)
(* the advection of each grain with velocity mobility*force/volume.           *)
EXTENDS TraceBase, AmpeFunc

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      N == p.n
      W(c) == At(in.weight,c)
      Cen(m,d,c) == ih[d]*(At(in.phase[m],Up(c,d))-At(in.phase[m],Dn(c,d)))     \* 2 * derivative
      \* 256 * velocity of body m, once the weights have been divided out
      Adv(m,c) == SumD(D, LAMBDA d : ((16 \div p.vol[m])*p.mob*p.force[(m-1)*D+d])*Cen(m,d,c))
      Acc(o,pr,F(_)) == Written(o, pr, cells, LAMBDA c : At(pr,c) + F(c))
      FI(i,j,d) == e.s1.force[((i-1)*p.nb + (j-1))*D + d]
      \* smooth cut-off of the overlap of two grains, 4*argument
      Cut(i,j,c) == H5("p", 2 + 40*(At(in.phase[i],c)*At(in.phase[j],c) - p.t) - p.s, 4)
      Rho4(c) == Min2(SumM(p.nc, LAMBDA k : At(in.conc[k],c)), 4) - p.rho
      \* 8192 * force density
      Wang(i,j,d,c) == W(c)*Rho4(c)*Cut(i,j,c)*(Cen(i,d,c)-Cen(j,d,c))
      \* 4 * force density / m with gamma = 3/2 
      Moel(i,j,d,c) == W(c)*3*p.m*Sq(At(in.phase[i],c))*At(in.phase[j],c)*Cen(j,d,c)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "c_rbmotion" ->
       \* the last component is not a body
       Chk("motion", \A m \in 1..N : Acc(out.rhs[m], e.pre.rhs[m], LAMBDA c : IF m = N THEN 0 ELSE -Adv(m,c)))
  [] e.ev = "c_rbconc" ->
       \* the species moves with the bodies
       Chk("motion", Acc(out.rhs, e.pre.rhs, LAMBDA c : -SumTo(N-1, LAMBDA m : Adv(m,c))))
  [] e.ev = "c_rbforce" ->
       Chk("complete", Len(e.s1.force) = p.nb*p.nb*D)
  \cup Chk("force", \A i \in 1..p.nb : \A j \in 1..p.nb : \A d \in 1..D :
         FI(i,j,d) = IF i = j THEN 0 ELSE p.k*SumOn(cells, LAMBDA c : IF p.wang = 1 THEN Wang(i,j,d,c) ELSE Moel(i,j,d,c)))
  \cup Chk("reaction", p.wang = 1 => \A i \in 1..p.nb : \A j \in 1..p.nb : \A d \in 1..D : FI(i,j,d) = -FI(j,i,d))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
