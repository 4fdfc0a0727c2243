------------------------------ MODULE TraceRhs ------------------------------
EXTENDS TraceBase, AmpeRhs

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      SB(d) == SideBox(lo,hi,d)
      N == IF "n" \in DOMAIN p THEN p.n ELSE 1
      N4 == N*N*N*N
      Sides(o,F(_,_)) == \A d \in 1..D : WrittenF(o[d], Filler, SB(d), LAMBDA c : F(d,c))
      Cells(o,F(_)) == WrittenF(o, Filler, cells, F)
      \* accumulating outputs: contents before + sc * increment
      Acc(o,pr,F(_)) == Written(o, pr, cells, LAMBDA c : At(pr,c) + F(c))
      AccS(o,pr,F(_,_)) == \A d \in 1..D : Written(o[d], pr[d], SB(d), LAMBDA c : At(pr[d],c) + F(d,c))
      Near(o,F(_),t) == \A c \in Dom(o) : IF c \in cells THEN Close(At(o,c),F(c),t) ELSE At(o,c) = Filler
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "gradient_flux" -> Chk("flux", Sides(out.flux, LAMBDA d,c : p.e2*G1(in.phase,ih,d,c)))
  [] e.ev = "gradient_flux_wide" -> Chk("flux", Sides(out.flux, LAMBDA d,c : p.e2*GWide8(in.phase,ih,d,c)))
  [] e.ev = "flux_isotropic" -> Chk("flux", Sides(out.flux, LAMBDA d,c : p.e2*GIso12(in.phase,ih,d,c)))
  [] e.ev = "add_flux" ->
       Chk("flux", \A i \in 1..p.depth : AccS([d \in 1..D |-> out.flux[d][i]], [d \in 1..D |-> e.pre.flux[d][i]],
         LAMBDA d,c : 12*FluxMat(p.depth, i, LAMBDA ij,j : At(in.d[d][ij],c)*G1(in.data[j],ih,d,c))))
  [] e.ev = "add_flux_iso" ->
       Chk("flux", \A i \in 1..p.depth : AccS([d \in 1..D |-> out.flux[d][i]], [d \in 1..D |-> e.pre.flux[d][i]],
         LAMBDA d,c : FluxMat(p.depth, i, LAMBDA ij,j :
             LET F(x) == At(in.d[d][ij],x)*G1(in.data[j],ih,d,x) IN
             Trans(c,d,F) + (12-2*(D-1))*F(c))))
  [] e.ev = "add_flux_4th" ->
       Chk("flux", \A i \in 1..p.depth : AccS([d \in 1..D |-> out.flux[d][i]], [d \in 1..D |-> e.pre.flux[d][i]],
         LAMBDA d,c : FluxMat(p.depth, i, LAMBDA ij,j :
             IF (c[d] = lo[d] /\ p.physb[2*d-1] = 1) \/ (c[d] = hi[d]+1 /\ p.physb[2*d] = 1)
             THEN 12*(At(in.d[d][ij],c)*G1(in.data[j],ih,d,c))
             ELSE At(in.d[d][ij],c)*G4th12(in.data[j],ih,d,c))))
  [] e.ev = "aniso2" ->
       Chk("flux", \A d \in 1..2 : \A c \in Dom(out.flux[d]) :
         IF c \notin SB(d) THEN At(out.flux[d],c) = Filler ELSE
         LET gx == SideG4(in.phase,ih,d,1,c)  gy == SideG4(in.phase,ih,d,2,c)
             q == Max2(-2*p.q,Min2(2*p.q,At(in.quat[1],c)+At(in.quat[1],Dn(c,d))))
             w == RefDir(q,2*p.q,p.qlen)
             o == At(out.flux[d],c)
         IN IF gx = 0 /\ gy = 0 THEN o = 0
            ELSE Close(o, p.e2*AnisoFlux(gx,gy,d,AnisoCS(gx,gy,p.k,w),p.k,p.v), p.e2*(8 + 2*(Abs(gx)+Abs(gy)))))
  [] e.ev = "aniso3" ->
       Chk("flux", \A d \in 1..3 : \A c \in Dom(out.flux[d]) :
         IF c \notin SB(d) THEN At(out.flux[d],c) = Filler ELSE
         LET gr == [x \in 1..3 |-> SideG4(in.phase,ih,d,x,c)]
             q2 == [m \in 1..4 |-> At(in.quat[m],c)+At(in.quat[m],Dn(c,d))]
             s == SumM(3, LAMBDA x : Abs(gr[x]))
         IN Close(At(out.flux[d],c), p.e2*CubicFlux(gr,q2,p.v,d), p.e2*(16 + 6*s)))
  [] e.ev = "rhspbg" ->
       Chk("rate", Cells(out.rhs, LAMBDA c :
         IF p.three = 0 THEN PbgN4(p,in,ih,c) ELSE N4*PbgN4(p,in,ih,c) - PbgEta8(p,in,c)))
  [] e.ev = "rhseta" ->
       \* N^8: div - we h(phi) W'(eta)
       Chk("rate", Cells(out.rhs, LAMBDA c : N4*N4*DivF(in.flux,ih,c) - p.we*H5(p.h,At(in.phi,c),N)*W3d(p.ewell,At(in.eta,c),N)))
  [] e.ev = "rhsthree" ->
       Chk("rate", \A i \in 1..3 : Cells(out.rhs[i], LAMBDA c : Tri9(p,in,ih,c,i)))
  \cup Chk("sum", \A c \in cells : SumM(3, LAMBDA i : At(out.rhs[i],c)) = 0)
  [] e.ev = "rhsgrains" ->
       Chk("rate", \A i \in 1..N : Cells(out.rhs[i], LAMBDA c : GrainRhs(p,in,ih,c,i)))
  [] e.ev = "rhswang" ->
       Chk("rate", \A i \in 1..N : Cells(out.rhs[i], LAMBDA c : WangRhs(p,in,ih,c,i)))
  [] e.ev = "fenergy" ->
       Chk("rate", Acc(out.rhs, e.pre.rhs, LAMBDA c : H4d(p.h,At(in.phi,c),N)*(At(in.fl,c)-At(in.fa,c))))
  [] e.ev = "etafenergy" ->
       Chk("rate", Acc(out.rhs, e.pre.rhs, LAMBDA c : H5(p.h,At(in.phi,c),N)*H4d(p.eh,At(in.eta,c),N)*(At(in.fa,c)-At(in.fb,c))))
  [] e.ev = "fenergymulti" ->
       \* sums of squares are powers of two (p.s^2 divides the scale)
       Chk("rate", \A i \in 1..N : Acc(out.rhs[i], e.pre.rhs[i], LAMBDA c :
         LET hs == SumTo(N-1, LAMBDA j : Sq(At(in.phi[j],c)))  hl == Sq(At(in.phi[N],c))
             df == At(in.fl,c)-At(in.fa,c)  s == hs+hl
             q == p.sc \div (s*s)
         IN IF i < N THEN 2*At(in.phi[i],c)*hl*df*q ELSE -(2*At(in.phi[i],c)*hs*df*q)))
  [] e.ev = "rhstemp" ->
       Chk("rate", Cells(out.rhs, LAMBDA c : 4*(p.coef*SumD(D, LAMBDA d : ih[d]*ih[d]*(At(in.temp,Up(c,d)) - 2*At(in.temp,c) + At(in.temp,Dn(c,d)))))
           + (IF p.phase = 0 THEN 0 ELSE ((4*p.latent) \div At(in.cp,c))*At(in.phirhs,c))))
  [] e.ev = "biaswell" ->     \* atan = pi t/4, t in -1..1: 4N^2
       Chk("rate", Acc(out.rhs, e.pre.rhs, LAMBDA c : LET K == At(in.phi,c) IN
         p.alpha*Sgn(At(in.te,c)-At(in.temp,c))*K*(N-K)))
  [] e.ev = "biasbeck" ->
       Chk("rate", Acc(out.rhs, e.pre.rhs, LAMBDA c : LET K == At(in.phi,c) IN
         p.alpha*(At(in.te,c)-At(in.temp,c))*K*(N-K)))
  [] e.ev = "deltatemp" ->    \* 48 N^4 ; alpha = L/Tm
       Chk("rate", Acc(out.rhs, e.pre.rhs, LAMBDA c : p.alpha*(48*p.tm - WT48(in.temp,c))*H4d(p.h,At(in.phi,c),N)))
  [] e.ev = "dphidtemp" ->
       Chk("rate", Cells(out.rhs, LAMBDA c : p.alpha*p.mob*H4d(p.h,At(in.phi,c),N)))
  [] e.ev = "frame2" ->
       Chk("advection", Acc(out.rhs, e.pre.rhs, LAMBDA c : p.vel*ih[1]*(At(in.phase,Up(c,1))-At(in.phase,Dn(c,1)))))
  [] e.ev = "frame3" ->
       Chk("advection", Acc(out.rhs, e.pre.rhs, LAMBDA c : p.vel*ih[1]*
          (IF p.physb = 1 /\ c[1] = hi[1] THEN 3*(At(in.phase,Up(c,1))-At(in.phase,Dn(c,1))) ELSE Up3(in.phase,c))))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
