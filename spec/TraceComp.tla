------------------------------ MODULE TraceComp ------------------------------
EXTENDS TraceBase, AmpeComp

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p  in == e.in  out == e.out
      OnSides(F(_,_)) == \A d \in 1..D : \A x \in SideBox(lo,hi,d) : F(d,x)
      \* sides the isotropic stencil reads: grown across the direction
      OnWide(g,F(_,_)) == \A d \in 1..D : \A x \in Box(GrowBut(lo,g,d),[k \in 1..D |-> IF k = d THEN hi[k]+1 ELSE hi[k]+g]) : F(d,x)
      Tc(f,y,x) == At(f,y) + At(f,x)
      Bdry(d,x) == p.per[d] = 0 /\ (x[d] = lo[d] \/ x[d] = hi[d]+1)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "kkscoef" ->
       \* D over (2N)^5 2^(6 jm), in units of 2^-s; coupling D h' (cl - ca)
       LET M == 2*p.n
           Dn1(d,x) == LET S == Tc(in.temp,Dn(x,d),x) IN PhaseD(p,in.phi,d,x,1,S) + PhaseD(p,in.phi,d,x,2,S)
       IN Chk("diffusion", OnSides(LAMBDA d,x : At(out.pfm0[d],x) = Dn1(d,x)))
          \cup Chk("coupling", OnSides(LAMBDA d,x :
                 LET y == Dn(x,d)
                     dc == Tc(in.cl,y,x) - Tc(in.ca,y,x)
                     d0 == Dn1(d,x) \div Pow(2,6*p.jm)
                     h1 == H4d(p.t,AvgAt(p.avg,in.phi[1],y,x),M)
                     q == Pow(2,p.sh)
                 IN Close(At(out.coup[d],x), (d0*(h1 \div q))*dc, (Abs(h1 \div q)+d0+2)*(Abs(dc)+1))))
  [] e.ev = "beckcoef" ->
       LET M == 2*p.n
           M5 == M*M*M*M*M
           \* fraction h over M5, partition coefficient over 8: 1 - h + k h over 8 M5
           Hn(d,x) == H5(p.t,AvgAt(p.avg,in.phi[1],Dn(x,d),x),M)
           Kn(d,x) == AvgAt(p.avg,in.kpart,Dn(x,d),x)
           Den(d,x) == 8*(M5 - Hn(d,x)) + Kn(d,x)*Hn(d,x)
           Q(d,x) == ((p.D[2]*Den(d,x) + (p.D[1]-p.D[2])*8*(M5 - Hn(d,x)))*p.f0) \div Den(d,x)
           Cn(d,x) == AvgAt(p.avg,in.conc,Dn(x,d),x)
           X(d,x) == ((Q(d,x)*(8-Kn(d,x))*1024) \div (Den(d,x) \div (M5 \div 1024)))*Cn(d,x)
       IN Chk("diffusion", OnSides(LAMBDA d,x : Close(At(out.pfm0[d],x), Q(d,x), 1)))
          \cup Chk("coupling", OnSides(LAMBDA d,x : Close(At(out.coup[d],x), X(d,x), 9*(Abs(Cn(d,x))+1) + Abs(X(d,x)) \div 256)))
  [] e.ev = "cdiff" ->
       Chk("value", OnSides(LAMBDA d,x : At(out.pfm0[d][1],x) = SumTo(p.np, LAMBDA i : PhaseD(p,in.phi,d,x,i,2))))
       \cup (IF p.depth = 4 THEN Chk("second", OnSides(LAMBDA d,x : At(out.pfm0[d][4],x) = At(out.pfm0[d][1],x))) ELSE {})
  [] e.ev = "tdiff" ->
       Chk("value", OnWide(p.g, LAMBDA d,x : \A i \in 1..p.np : At(out[p.o[i]][d][1],x) = PhaseD(p,in.phi,d,x,i,Tc(in.temp,Dn(x,d),x))))
       \cup (IF p.depth = 4 THEN Chk("second", OnSides(LAMBDA d,x : \A i \in 1..p.np : At(out[p.o[i]][d][4],x) = At(out[p.o[i]][d][1],x))) ELSE {})
       \cup Chk("precond", OnSides(LAMBDA d,x : \A m \in 1..p.npre : At(out[p.pre[m]][d],x) = SumTo(p.np, LAMBDA i : At(out[p.o[i]][d][m*m],x))))
  [] e.ev = "cab" ->
       Chk("value", OnSides(LAMBDA d,x : At(out.pfm0[d],x) = 16*SumTo(p.np, LAMBDA i : p.D[i]*LinFrac(p,in.phi,d,x,i)) + InterfaceD(p,in.phi,in.phi[1],d,x,0,0)))
  [] e.ev = "tab" ->
       Chk("value", OnWide(p.g, LAMBDA d,x : \A i \in 1..p.np :
              At(out[p.o[i]][d][1],x) = Pow(2,2*p.km)*16*p.D[i]*LinFrac(p,in.phi,d,x,i) + InterfaceD(p,in.phi,in.temp,d,x,i,p.km)))
  [] e.ev = "wsdiff" ->
       Chk("value", OnSides(LAMBDA d,x : LET y == Dn(x,d)  K == Clip(At(in.conc,y)+At(in.conc,x),800) IN
              At(out.pfm0[d],x) = 16*(p.D[1]*(800-K) + p.D[2]*K) + InterfaceD(p,in.phi,in.phi[1],d,x,0,0)
                 + p.s*SumOn({y,x}, LAMBDA c : Sq((At(in.conc,c) \div 20)*(20 - At(in.conc,c) \div 20)) )))
  [] e.ev = "cmob" ->
       LET c2(f,d,x) == [i \in 1..p.nc |-> Tc(f[i],Dn(x,d),x)]
           M == 2*p.n  M5 == M*M*M*M*M
           DD(ph,f,d,x) == MatD8(p.nc,ph,c2(f,d,x),Tc(in.temp,Dn(x,d),x))
           H(d,x) == H5(p.t,AvgAt(p.avg,in.phi[1],Dn(x,d),x),M)
       IN Chk("phase", OnSides(LAMBDA d,x : LET ml == DD(0,in.cl,d,x)  ma == DD(1,in.ca,d,x) IN
             \A m \in 1..p.nc*p.nc : At(out.coefl[d][m],x) = ml[m] /\ At(out.coefa[d][m],x) = ma[m]))
          \cup Chk("weighted", OnSides(LAMBDA d,x : LET ml == DD(0,in.cl,d,x)  ma == DD(1,in.ca,d,x) IN
             \A m \in 1..p.nc*p.nc : Close(At(out.dl[d][m],x), ((M5-H(d,x)) \div 4)*ml[m], 4*Abs(ml[m])) /\ Close(At(out.da[d][m],x), (H(d,x) \div 4)*ma[m], 4*Abs(ma[m]))))
  [] e.ev = "cflux" -> Chk("flux", OnSides(LAMBDA d,x : At(out.flux[d],x) = CoupledFlux(in,ih,d,x)))
  [] e.ev = "ebsflux" ->
       Chk("flux", OnSides(LAMBDA d,x : \A i \in 1..p.nc :
              At(out.flux[d][i],x) = PhaseFlux12(p,in.dl,in.cl,ih,d,x,lo,hi,i) + PhaseFlux12(p,in.da,in.ca,ih,d,x,lo,hi,i)
                                     + (IF p.b = 1 THEN PhaseFlux12(p,in.db,in.cb,ih,d,x,lo,hi,i) ELSE 0)))
  [] e.ev = "precond" ->
       LET P(d,m,x) == At(in.dl[d][m],x) + At(in.da[d][m],x) + (IF p.b = 1 THEN At(in.db[d][m],x) ELSE 0)
       IN Chk("diagonal", OnSides(LAMBDA d,x : At(out.pfm0[d],x) = P(d,1,x) /\ (p.nc = 2 => At(out.pfm1[d],x) = P(d,4,x))))
  [] e.ev = "chflux" -> Chk("flux", OnSides(LAMBDA d,x : \A i \in 1..p.nc : At(out.flux[d][i],x) = ih[d]*(ChMu(p,in.conc[i],ih,x) - ChMu(p,in.conc[i],ih,Dn(x,d)))))
  [] e.ev = "wsflux" -> Chk("flux", OnSides(LAMBDA d,x : At(out.flux[d],x) = p.mob*At(in.d[d],x)*ih[d]*(WsMu(p,in,ih,x) - WsMu(p,in,ih,Dn(x,d)))))
  [] e.ev = "czero" -> Chk("boundary", OnSides(LAMBDA d,x : \A i \in 1..p.nc : At(out.flux[d][i],x) = (IF Bdry(d,x) THEN 0 ELSE At(e.pre.flux[d][i],x))))
  [] e.ev = "anti" ->
       Chk("flux", OnSides(LAMBDA d,x : \A i \in 1..p.nc :
          LET v == CASE p.m = "plain" -> <<AntiPlain(p,in,ih,d,x,i), 0>> [] p.m = "three" -> AntiThree(p,in,ih,d,x) [] OTHER -> <<AntiMulti(p,in,ih,d,x), 0>>
          IN Close(At(out.flux[d][i],x) - At(e.pre.flux[d][i],x), v[1]+v[2], 1200 + (Abs(v[1])+Abs(v[2])) \div 128)))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
