------------------------------- MODULE AmpeComp -------------------------------
(* The composition equation dc/dt = M div J: diffusion coefficients on sides,  *)
(* fluxes of the formulations (KKS, Beckermann, one flux per phase,            *)
(* Cahn-Hilliard, sintering), boundary fluxes, anti-trapping.                  *)
EXTENDS AmpeRhs, AmpeMob

(* --- coefficients.  ph[i] are the components of the order parameter that    *)
(* make up phase i (1 liquid, 2 solid A, 3 solid B); `one`: a single order    *)
(* parameter, solid where it is 1.                                            *)
SumSeq(q, F(_)) == SumTo(Len(q), LAMBDA i : F(q[i]))
\* 2N-average of a component at a side
AvgAt(t,f,y,x) == Avg2(t,At(f,y),At(f,x))
\* (2N)^5 times the fraction of phase i at side x
Frac(p,phi,d,x,i) ==
  LET y == Dn(x,d)
      M == 2*p.n
      H == H5(p.t, SumSeq(p.ph[i], LAMBDA a : AvgAt(p.avg,phi[a],y,x)), M)
  IN IF p.one = 1 /\ i = 1 THEN M*M*M*M*M - H ELSE H
\* Arrhenius factor at a side, S the sum of the two temperatures: T in {1,3}, activation 6 j R ln 2; times 2^(6j)
ArrS(j,S) == Pow(2, 6*j - (12*j) \div S)
\* numerator of the diffusion coefficient of phase i, over (2N)^5 2^(6 jm): D0[i] 2^(-6 j[i] 2/S)
PhaseD(p,phi,d,x,i,S) == Frac(p,phi,d,x,i)*p.D[i]*ArrS(p.j[i],S)*Pow(2,6*(p.jm-p.j[i]))

\* diffusion along interfaces: every cell gives half to each of its sides, for each pair of order parameters above the threshold
Lev(K) == IF K <= 4 THEN 0 ELSE (K-4) \div 49
PairSum(q,r,same,F(_,_)) == SumTo(Len(q), LAMBDA a : SumTo(Len(r), LAMBDA b : IF same /\ b <= a THEN 0 ELSE F(q[a],r[b])))
PairAt(p,phi,c,u) == \* u = <<i,j,d0,k>> ; times 512
  u[3]*PairSum(p.ph[u[1]],p.ph[u[2]],u[1] = u[2],LAMBDA a,b : Sq(Lev(At(phi[a],c))*Lev(At(phi[b],c))))
\* linear interpolation part on the 1/400 lattice, times 16*800
LinFrac(p,phi,d,x,i) ==
  LET K == Clip(SumSeq(p.ph[i], LAMBDA a : At(phi[a],Dn(x,d)) + At(phi[a],x)), 800) IN IF p.one = 1 /\ i = 1 THEN 800-K ELSE K
\* Arrhenius in a cell, T in {1,2}: times 2^(2 km)
ArrC(k,km,Tm) == Arr(k,Tm)*Pow(2,2*(km-k))
InterfaceD(p,phi,temp,d,x,i,km) == \* interfaces that belong to phase i (0: all), times 12800 2^(2 km)
  25*SumSeq(p.ab, LAMBDA u : IF i # 0 /\ u[1] # i /\ u[2] # i THEN 0
       ELSE SumOn({Dn(x,d),x}, LAMBDA c : PairAt(p,phi,c,u)*ArrC(u[4],km,IF km = 0 THEN 1 ELSE At(temp,c))))

\* mobility matrix times second derivatives for the stand-in functions, c and T doubled; times 8
StdM4(n,ph,c,Tm) ==
  IF n = 1 THEN <<Tm*(2*(2+ph)+c[1])>>
  ELSE <<Tm*(2*(2+ph)+c[1]), 2*(2*ph-c[2]), 2*(2*ph-c[2]), Tm*(6+c[1]+2*c[2])>>
StdH2(n,ph,c,Tm) ==
  IF n = 1 THEN <<2*(3-ph)+2*c[1]>>
  ELSE <<2*(3+ph)+c[2], 2*(1+ph)+c[1], 2*(1+ph)+c[1], 10+Tm-2*ph+2*c[1]>>
MatD8(n,ph,c,Tm) ==
  LET m == StdM4(n,ph,c,Tm)  g == StdH2(n,ph,c,Tm)
  IN [ij \in 1..n*n |-> LET i == ((ij-1) % n)+1  j == ((ij-1) \div n)+1 IN SumM(n, LAMBDA k : m[i+(k-1)*n]*g[k+(j-1)*n])]

(* --- fluxes *)
\* D grad c + X grad phi
CoupledFlux(in,ih,d,x) == At(in.d[d],x)*G1(in.conc,ih,d,x) + At(in.coup[d],x)*G1(in.phi[1],ih,d,x)
\* one phase's share, times 12
PhaseFlux12(p,D,c,ih,d,x,lo,hi,i) ==
  CASE p.st = "regular" -> 12*FluxMat(p.nc,i,LAMBDA ij,j : At(D[d][ij],x)*G1(c[j],ih,d,x))
    [] p.st = "isotropic" -> FluxMat(p.nc,i,LAMBDA ij,j : LET F(z) == At(D[d][ij],z)*G1(c[j],ih,d,z) IN Trans(x,d,F) + (12-2*(Len(lo)-1))*F(x))
    [] OTHER -> FluxMat(p.nc,i,LAMBDA ij,j :
         IF p.per[d] = 0 /\ (x[d] = lo[d] \/ x[d] = hi[d]+1) THEN 12*(At(D[d][ij],x)*G1(c[j],ih,d,x))
         ELSE At(D[d][ij],x)*G4th12(c[j],ih,d,x))
Lap(f,ih,c) == SumD(Len(c), LAMBDA d : Sq(ih[d])*(At(f,Up(c,d)) + At(f,Dn(c,d)) - 2*At(f,c)))
ChMu(p,f,ih,c) == LET k == At(f,c) IN 2*p.w*(k-p.ca)*(p.cb-k)*(p.cb+p.ca-2*k) - p.kap*Lap(f,ih,c)
WsMu(p,in,ih,c) ==
  LET k == At(in.conc,c)
  IN 2*p.A*k*(1-k)*(1-2*k) + 2*p.B*(k - 3*SumTo(Len(in.phi), LAMBDA m : Sq(At(in.phi[m],c))) + 2*SumTo(Len(in.phi), LAMBDA m : Pow(At(in.phi[m],c),3))) - p.beta*Lap(in.conc,ih,c)

(* --- anti-trapping: four times the gradient at a side *)
Grad4(f,ih,d,x) ==
  [e \in 1..Len(x) |-> IF e = d THEN 4*G1(f,ih,d,x)
     ELSE LET y == Dn(x,d) IN ih[e]*(At(f,Up(x,e)) - At(f,Dn(x,e)) + At(f,Up(y,e)) - At(f,Dn(y,e)))]
Dot(a,b) == SumD(Len(a), LAMBDA e : a[e]*b[e])
Vadd(a,b) == [e \in 1..Len(a) |-> a[e]+b[e]]
\* integer square root, n < 2^30
ISqrt(n) == FoldLeft(LAMBDA r,b : IF (r+b)*(r+b) <= n THEN r+b ELSE r, 0, <<16384,8192,4096,2048,1024,512,256,128,64,32,16,8,4,2,1>>)
\* 512 times the square root
Root512(n2) == IF n2 < 4096 THEN ISqrt(n2*262144) ELSE 4*ISqrt(n2*16384)
F0 == 4096
\* unit vector component times F0; cosine times F0
UnitC(g,d) == (g[d]*F0*512) \div Root512(Dot(g,g))
Cos(g,f) == (((Dot(g,f)*F0*8) \div Root512(Dot(g,g)))*512*64) \div Root512(Dot(f,f))
\* increments times 4 F0
AntiPlain(p,in,ih,d,x,i) ==
  LET y == Dn(x,d)
      g == Grad4(in.phi[1],ih,d,x)
  IN IF Dot(g,g) = 0 THEN 0
     ELSE p.alpha*UnitC(g,d)*(At(in.cl[i],y)+At(in.cl[i],x)-At(in.ca[i],y)-At(in.ca[i],x))*(At(in.dphidt[1],y)+At(in.dphidt[1],x))
AntiThree(p,in,ih,d,x) ==
  LET y == Dn(x,d)
      g == Grad4(in.phi[1],ih,d,x)
      S(cs,m) == LET f == Grad4(in.phi[m],ih,d,x)
                 IN IF Dot(f,f) = 0 THEN 0
                    ELSE p.alpha*(-((Cos(g,f)*UnitC(g,d)) \div F0))*(At(in.cl[1],y)+At(in.cl[1],x)-At(cs,y)-At(cs,x))*(At(in.dphidt[m],y)+At(in.dphidt[m],x))
  IN IF Dot(g,g) = 0 THEN <<0,0>> ELSE <<S(in.ca[1],2), S(in.cb[1],3)>>
AntiMulti(p,in,ih,d,x) ==
  LET y == Dn(x,d)
      n == Len(in.phi)
      g == Grad4(in.phi[n],ih,d,x)
      f == [e \in 1..Len(x) |-> SumTo(n-1, LAMBDA m : Grad4(in.phi[m],ih,d,x)[e])]
  IN IF Dot(g,g) = 0 \/ Dot(f,f) = 0 THEN 0
     ELSE -(p.alpha*UnitC(g,d)*(At(in.cl[1],y)+At(in.cl[1],x)-At(in.ca[1],y)-At(in.ca[1],x))*SumTo(n-1, LAMBDA m : At(in.dphidt[m],y)+At(in.dphidt[m],x)))
=============================================================================
