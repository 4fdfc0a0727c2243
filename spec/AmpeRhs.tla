------------------------------ MODULE AmpeRhs ------------------------------
(* Order-parameter evolution: gradient fluxes and right-hand sides.           *)
(* phi, eta are K/N; results carry the power of N named in the operator.      *)
EXTENDS AmpeFunc, AmpeQuat

DivF(fl,ih,c) == SumD(Len(c), LAMBDA d : ih[d]*(At(fl[d],Up(c,d)) - At(fl[d],c)))

(* ---- gradient fluxes ---- *)
G1(v,ih,d,c) == ih[d]*(At(v,c) - At(v,Dn(c,d)))
\* transverse neighbours weighted 1, centre w (2D compact and wide isotropic fluxes)
Trans(c,d,F(_)) == SumD(Len(c), LAMBDA e : IF e = d THEN 0 ELSE F(Up(c,e)) + F(Dn(c,e)))
GIso12(v,ih,d,c) == Trans(c,d,LAMBDA x : G1(v,ih,d,x)) + (12 - 2*(Len(c)-1))*G1(v,ih,d,c)
GWide8(v,ih,d,c) == Trans(c,d,LAMBDA x : G1(v,ih,d,x)) + 6*G1(v,ih,d,c)
\* fourth-order normal gradient times 12
G4th12(v,ih,d,c) == ih[d]*(15*(At(v,c)-At(v,Dn(c,d))) - (At(v,Up(c,d))-At(v,Sh(c,d,-2))))
\* 4 * gradient component e of a cell field on a side of normal d
SideG4(v,ih,d,e,c) ==
  IF e = d THEN 4*G1(v,ih,d,c)
  ELSE ih[e]*(At(v,Up(c,e)) - At(v,Dn(c,e)) + At(v,Up(Dn(c,d),e)) - At(v,Dn(Dn(c,d),e)))

(* diffusive fluxes with a matrix of face coefficients D[d][ij], ij = i+(j-1)n *)
FluxMat(n,i,TT(_,_)) == SumM(n, LAMBDA j : TT(i+(j-1)*n, j))

(* 2D anisotropic interface: energy eps(th) = eps(1+nu cos(k(th-ref))), th the  *)
(* direction of the gradient (a line: th in ]-pi/2,pi/2]).                     *)
(* fixed point F = 2^14 for cos, sin; gradient given times 4                   *)
FX == 16384
\* fixed-point power of a unit complex number
CPowF(w,k) == LET RECURSIVE P(_)
                  P(n) == IF n = 0 THEN <<FX,0>> ELSE LET p == CMul(w,P(n-1)) IN <<(p[1]+8192) \div FX,(p[2]+8192) \div FX>> IN P(k)
\* square root of x in 0..FX^2, to the nearest below
RECURSIVE SqrtB(_,_,_)
SqrtB(x,a,b) == IF b - a <= 1 THEN a ELSE LET m == (a+b) \div 2 IN IF m*m <= x THEN SqrtB(x,m,b) ELSE SqrtB(x,a,m)
Sqrt(x) == SqrtB(x,0,32768)
\* <<cos,sin>>(ref) from the first quaternion component q/Q (already averaged and clipped)
RefDir(q,Q,qlen) ==
  LET c == (q*FX) \div Q  s == Sqrt(FX*FX - c*c) IN
  IF qlen = 4 THEN << (2*c*c) \div FX - FX, (2*c*s) \div FX >> ELSE << c, s >>
\* <<cos,sin>>(k(theta-ref)) for gradient (x,y) # 0, k even
AnisoCS(x,y,k,w) ==
  LET z == CMul(<<x,y>>,<<x,y>>)  m == x*x+y*y
      u == CPowF(<< (z[1]*FX) \div m, (z[2]*FX) \div m >>, k \div 2)
      p == CMul(u, CConj(CPowF(w,k))) IN << p[1] \div FX, p[2] \div FX >>
\* flux (component along d) times 4*1024 divided by eps^2; nu = 1/v
AnisoFlux(gx,gy,d,cs,k,v) ==
  LET e == 4096 + (cs[1] + 2*v) \div (4*v)         \* eps/eps0 in 2^12, to nearest
      de == -((k*cs[2] + 2*v) \div (4*v))
      ee == (e*e + 2048) \div 4096
      ed == (e*de + 2048) \div 4096
  IN IF d = 1 THEN (ee*gx - ed*gy + 2) \div 4 ELSE (ee*gy + ed*gx + 2) \div 4

(* 3D cubic anisotropy: eps(n) = eps((1-3 e4) + 4 e4 sum n_i^4) in the crystal frame *)
(* gr = 4*gradient, q2 = 2*mean quaternion (integers), e4 = 1/v ; flux*4*1024/eps^2 *)
Rot3(q,g) == LET p == QMul(QMul(q,<<0,g[1],g[2],g[3]>>),QConj(q)) IN <<p[2],p[3],p[4]>>
Cubic4(gr,q2) ==   \* <<np_i^2 in 2^12>>
  LET r == Rot3(q2,gr)  m == VNorm2(gr) IN [i \in 1..3 |-> (r[i]*r[i]*256 + m \div 2) \div m]
CubicFlux(gr,q2,v,d) ==
  IF VNorm2(gr) = 0 THEN 0 ELSE
  LET u == Cubic4(gr,q2)
      n4 == SumM(3, LAMBDA i : (u[i]*u[i]+2048) \div 4096)               \* 2^12
      ga == ((4096*v - 3*4096 + 4*n4) \div v) \div 4                          \* 2^10 * gamma/eps
      r == Rot3(q2,gr)                                                \* 16 |grad| np
      w == [i \in 1..3 |-> (r[i]*(u[i]-n4)) \div 4]                       \* 4|grad| np_i (..), 2^12
      b == Rot3(QConj(q2),w)                                         \* 16 |grad| dgamma 2^12
  IN ((ga*ga) \div 1024)*gr[d] + ((ga*(b[d] \div v)) \div 1024)

(* ---- right-hand sides: N^4 * rhs ---- *)
\* two-phase: div flux - w W'(phi) [ - we h'(phi) W(eta) ] [ - M T p1' |gq| - eq^2/2 p2' |gq|^2 ]
PbgN4(p,in,ih,c) ==
  LET N == p.n  K == At(in.phi,c) IN
    (N*N*N*N)*DivF(in.flux,ih,c) - p.w*N*W3d(p.well,K,N)
    - (IF p.orient = 0 THEN 0 ELSE
         LET g == At(in.ogm,c) IN
           p.misor*At(in.temp,c)*g*H4d(p.p1,K,N) + p.eq2*g*g*H4d(p.p2,K,N))
PbgEta8(p,in,c) == p.we*H4d(p.h,At(in.phi,c),p.n)*W4(p.ewell,At(in.eta,c),p.n)

\* three phases, 9 N^3 * rhs: each phase's descent, projected on zero sum
Tri3(p,in,ih,c,i) ==
  LET N == p.n  j == (i % 3)+1  k == ((i+1) % 3)+1
  IN 3*N*N*N*DivF([d \in 1..Len(c) |-> in.flux[d][i]],ih,c)
     - p.w*TW9(At(in.phi[i],c),At(in.phi[j],c),At(in.phi[k],c),N)
Tri9(p,in,ih,c,i) == 3*Tri3(p,in,ih,c,i) - SumM(3, LAMBDA m : Tri3(p,in,ih,c,m))

\* grains: div - m (phi^3 - phi + 2 gamma phi sum_{j#i} phi_j^2); integer phi
GrainRhs(p,in,ih,c,i) ==
  LET n == p.n
      f == At(in.phi[i],c) IN
  DivF([d \in 1..Len(c) |-> in.flux[d][i]],ih,c)
   - p.m*(f*f*f - f + p.g2*f*SumTo(n, LAMBDA j : IF j = i THEN 0 ELSE Sq(At(in.phi[j],c))))
\* sintering grains: beta div - 12 B ((1-c) f - (2-c) f^2 + f sum phi_j^2)
WangRhs(p,in,ih,c,i) ==
  LET f == At(in.phi[i],c)  x == At(in.conc,c) IN
  p.beta*DivF([d \in 1..Len(c) |-> in.flux[d][i]],ih,c)
   - 12*p.b*((1-x)*f - (2-x)*f*f + f*SumTo(p.n, LAMBDA j : Sq(At(in.phi[j],c))))

\* mean temperature 3/4 T + 1/4 (average of the 2D neighbours), times 48
WT48(t,c) == LET D == Len(c) IN 36*At(t,c) + (6 \div D) * SumD(D, LAMBDA d : At(t,Up(c,d)) + At(t,Dn(c,d)))

\* third-order upwind-biased 6*h*d/dx, information coming from larger x
Up3(v,c) == -2*At(v,Dn(c,1)) - 3*At(v,c) + 6*At(v,Up(c,1)) - At(v,Sh(c,1,2))
=============================================================================
