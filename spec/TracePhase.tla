------------------------------ MODULE TracePhase ------------------------------
(* The order-parameter classes of AMPE run over a level cut into patches: the  *)
(* specification does not mention patches, so any dependence on the cut shows. *)
EXTENDS TraceBase, AmpeRhs, AmpeAmr

(* On nested levels: the flux of a coarse face that finer faces make up is their *)
(* mean; a cell's rate is made of the fluxes of its own faces.                   *)
LevCheck(e) ==
  LET D == e.dim  lev == e.lev  p == e.p  nl == Len(lev)
      Cls == [u \in 1..nl |-> LevelCells(lev,u)]
      Phi(u,i) == e.inp.phi[u][i]
      Drive(u,c) == IF p.fe = 0 THEN 0 ELSE At(e.inp.sl[u][1],c) + 2*At(e.inp.sa[u][1],c) + 4*At(e.inp.sb[u][1],c)
      Drive2(u,c) == IF p.fe = 0 THEN 0 ELSE At(e.inp.sl[u][1],c) + 2*At(e.inp.sa[u][1],c)
      \* 12 times twice the gradient
      Gr24(u,i,d,c) == IF p.iso = 1 THEN GIso12(Phi(u,i),e.hinv2[u],d,c) ELSE 12*G1(Phi(u,i),e.hinv2[u],d,c)
      ee == p.e*p.e*(IF p.ty = "multi" THEN 2 ELSE 1)
      \* 2 * 64 * divergence
      Dv(u,i,c) == SumD(D, LAMBDA d : e.hinv2[u][d]*(At(e.flux[u][d][i],Up(c,d)) - At(e.flux[u][d][i],c)))
      f(u,i,c) == At(Phi(u,i),c)
      \* 128 times the rate over the mobility (1152 times for three phases)
      R(u,i,c) ==
        CASE p.ty = "q" -> Dv(u,1,c) + 128*(Drive2(u,c) - p.w*W3d(p.well,f(u,1,c),1))
          [] p.ty = "multi" -> Dv(u,i,c) + 128*(Drive(u,c) - p.w*(f(u,i,c)*f(u,i,c)*f(u,i,c) - f(u,i,c)
                                   + 3*f(u,i,c)*SumTo(p.m, LAMBDA j : IF j = i THEN 0 ELSE Sq(f(u,j,c)))))
          [] OTHER -> LET T3(j) == 3*Dv(u,j,c) - 128*p.w*TW9(f(u,j,c), f(u,(j % 3)+1,c), f(u,((j+1) % 3)+1,c), 1)
                      IN 3*T3(i) - SumM(3, LAMBDA j : T3(j)) + 9*128*Drive(u,c)
      tol(u) == 6*SumD(D, LAMBDA d : 2*e.hinv2[u][d])*(IF p.ty = "three" THEN 18 ELSE 1) + 4
  IN Chk("guard", e.g = 1)
  \cup Chk("flux", \A u \in 1..nl : \A i \in 1..p.m : \A d \in 1..D : \A c \in Cls[u] : \A x \in {c, Up(c,d)} :
        LET F == FinerFaces(lev,u+1,d,x) IN
        IF F = {} THEN Close(24*At(e.flux[u][d][i],x), 64*ee*Gr24(u,i,d,x), 24)
        ELSE Close(Cardinality(F)*At(e.flux[u][d][i],x), SumOn(F, LAMBDA y : At(e.flux[u+1][d][i],y)), 1 + Cardinality(F)))
  \cup Chk("rate", \A u \in 1..nl : \A i \in 1..p.m : \A c \in Cls[u] :
        Close(2*At(e.rhs[u][i],c), At(e.inp.mob[u][1],c)*R(u,i,c), tol(u)))

Check(e,h) ==
  IF e.ev = "phaseerror" THEN {e.what} ELSE IF e.ev = "phaselev" THEN LevCheck(e) ELSE
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      SB(d) == SideBox(lo,hi,d)
      N == IF "n" \in DOMAIN p THEN p.n ELSE 1
      N4 == N*N*N*N
      Cells(o,F(_)) == WrittenF(o, Filler, cells, F)
      Acc(o,pr,F(_)) == Written(o, pr, cells, LAMBDA c : At(pr,c) + F(c))
      FluxIs(i,F(_,_)) == \A d \in 1..D : WrittenF(out.flux[d][i], Filler, SB(d), LAMBDA c : F(d,c))
      Drive(c) == IF p.fe = 0 THEN 0 ELSE At(in.sl,c) + 2*At(in.sa,c) + 4*At(in.sb,c)
      Mob(c) == At(in.mob,c)
      Gr12(f,d,c) == IF p.iso = 1 THEN GIso12(f,ih,d,c) ELSE 12*G1(f,ih,d,c)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "c_multi" ->
       LET in2 == [phi |-> in.phi, flux |-> out.flux] IN
       Chk("flux", \A i \in 1..N : FluxIs(i, LAMBDA d,c : 2*p.e*p.e*Gr12(in.phi[i],d,c)))
  \cup Chk("rate", \A i \in 1..N : Cells(out.rhs[i], LAMBDA c : Mob(c)*(GrainRhs([p EXCEPT !.m = 12*p.m],in2,ih,c,i) + 12*Drive(c))))
  [] e.ev = "c_three" ->
       \* flux logged times 12 N
       LET \* 108 N^3 rhs with a flux given times 12 N: the divergence term carries N^2 instead of N^3
           T3(c,i) == LET j == (i % 3)+1  k == ((i+1) % 3)+1 IN
             3*N*N*DivF([d \in 1..D |-> out.flux[d][i]],ih,c) - 12*p.w*TW9(At(in.phi[i],c),At(in.phi[j],c),At(in.phi[k],c),N)
           T9(c,i) == 3*T3(c,i) - SumM(3, LAMBDA m : T3(c,m))
       IN Chk("flux", \A i \in 1..3 : FluxIs(i, LAMBDA d,c : p.e*p.e*Gr12(in.phi[i],d,c)))
  \cup Chk("rate", \A i \in 1..3 : Cells(out.rhs[i], LAMBDA c : Mob(c)*(T9(c,i) + 108*N*N*N*Drive(c))))
  [] e.ev = "c_withq" ->
       LET nf == [d \in 1..D |-> out.flux[d]]
           \* 12 N^4 * rate
           core(c) == N*N*N*DivF(nf,ih,c) - 12*p.w*N*W3d(p.well,At(in.phi,c),N)
             - (IF p.orient = 0 THEN 0 ELSE LET g == At(in.ogm,c) IN
                 12*(p.misor*At(in.temp,c)*g*H4d(p.p1,At(in.phi,c),N) + p.eq2*g*g*H4d(p.p2,At(in.phi,c),N)))
           rate(c) == core(c) + (IF p.fe = 0 THEN 0 ELSE 12*N4*(At(in.sl,c) + 2*At(in.sa,c)))
       IN Chk("flux", \A d \in 1..D : WrittenF(out.flux[d], Filler, SB(d),
              LAMBDA c : p.e*p.e*Gr12(in.phi,d,c)))
  \cup Chk("rate", Cells(out.rhs, LAMBDA c : Mob(c)*rate(c)))
  \cup Chk("plot", IF p.visit = 1 /\ p.flag = 1 THEN Cells(out.visit, rate) ELSE \A c \in Dom(out.visit) : At(out.visit,c) = Filler)
  [] e.ev = "c_project" ->
       \* the correction moves phi onto sum = 1 along (1,..,1); the error loses that component (all times n)
       LET S(f,c) == SumTo(N, LAMBDA m : At(f[m],c)) IN
       Chk("correction", \A m \in 1..N : Cells(out.corr[m], LAMBDA c : 1 - S(in.phi,c)))
  \cup Chk("error", \A m \in 1..N : \A c \in Dom(out.err[m]) :
             At(out.err[m],c) = IF c \in cells THEN N*At(e.pre.err[m],c) - S(e.pre.err,c) ELSE N*At(e.pre.err[m],c))
  [] e.ev = "c_frame" ->
       Chk("advection", \A m \in 1..N : Acc(out.rhs[m], e.pre.rhs[m], LAMBDA c : LET v == in.phase[m] IN p.vel*ih[1]*
         (IF p.up = 0 \/ (p.per[1] = 0 /\ c[1] = hi[1])
          THEN 3*(At(v,Up(c,1))-At(v,Dn(c,1))) ELSE Up3(v,c))))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
