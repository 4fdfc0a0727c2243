-------------------------------- MODULE AmpeMob --------------------------------
(* Mobilities and the coefficients of the orientation equation.               *)
EXTENDS AmpeFunc

(* orientation mobility: between sc (phi <= 0) and mn (phi >= 1); times S     *)
\* share of sc - mn at phi = K/N, as numerator over MobDen
MobDen(t,N,m) == CASE t = "p" -> N*N*N*N*N [] t = "e" -> Pow(2,Abs(m)*N) - 1 [] OTHER -> 144
MobNum(t,K,N,m,alt) ==
  LET C == Clip(K,N) IN
  CASE t = "p" -> N*N*N*N*N - H5("p",K,N)
    [] t = "e" -> IF m > 0 THEN Pow(2,m*N) - Pow(2,m*C) ELSE Pow(2,(-m)*(N-C)) - 1
    [] OTHER -> IF K <= 0 THEN 144*alt ELSE Min2((144*N*(N-C)) \div (C*C), 144*alt)
QuatMob(t,K,N,m,alt,mn,sc) == MobDen(t,N,m)*mn + (sc-mn)*MobNum(t,K,N,m,alt)
\* its derivative in phi: over N^4; over -(ln 2) N m / (2^(mN) - 1); over 1728.  The third family has a kink where it saturates.
MobSat(t,K,N,alt) == t = "i" /\ (K <= 0 \/ K > N \/ N*(N-K) >= alt*K*K)
DMobNum(t,K,N,m) ==
  LET C == Clip(K,N) IN
  CASE t = "p" -> -30*C*C*(N-C)*(N-C)
    [] t = "e" -> IF m > 0 THEN -Pow(2,m*C) ELSE -Pow(2,(-m)*(N-C))
    [] OTHER -> (1728*N*N*(C-2*N)) \div (C*C*C)

\* 12 / max(|g|, floor) and its smooth variants, floor = fn/64, |g|^2 = n2 a square (plus floor^2 a square for "s")
RootOf(n2) == CHOOSE r \in 0..64 : r*r = n2
GradInv(ft,n2,fn) ==
  CASE ft = "s" -> 12 \div RootOf(n2 + Sq(fn \div 64))
    [] OTHER -> IF n2*64*64 > fn*fn THEN 12 \div RootOf(n2) ELSE (12*64) \div fn

\* twice-N average of two values over N and its derivative (times 8) in the value next
Avg2(t,a,b) == IF t = "a" THEN a+b ELSE IF a <= 0 \/ b <= 0 THEN 0 ELSE (4*a*b) \div (a+b)
DAvg8(t,A,k) == IF t = "a" THEN 4 ELSE IF A = 0 THEN 0 ELSE (A*A) \div (k*k)
Norm2(gq,d,x,depth) == SumM(depth, LAMBDA m : SumD(Len(x), LAMBDA e : Sq(At(gq[d][m][e],x))))

\* - (|grad q|^-1 2H T p1(phi) + eps_q^2 p2(phi)), times 24 (2N)^5
FaceCoef(p,in,d,x) ==
  LET y == Dn(x,d)
      A == Avg2(p.avg,At(in.phi,y),At(in.phi,x))
  IN -(GradInv(p.ft,Norm2(in.grad,d,x,p.depth),p.fn)*p.mis*(At(in.temp,y)+At(in.temp,x))*H5(p.p1,A,2*p.n) + 24*p.e2*H5(p.p2,A,2*p.n))
\* derivative of the first term in the two cell values, times 24 (2N)^4 8 ; w = 0: lower cell, w = 1: upper cell
DerivCoef(p,in,d,x,w) ==
  LET y == Dn(x,d)
      a == At(in.phi,y)
      b == At(in.phi,x)
      A == Avg2(p.avg,a,b)
  IN IF a <= 0 \/ b <= 0 THEN 0
     ELSE GradInv(p.ft,Norm2(in.grad,d,x,p.depth),p.fn)*p.mis*(At(in.temp,y)+At(in.temp,x))*H4d(p.p1,A,2*p.n)*DAvg8(p.avg,A,IF w = 0 THEN a ELSE b)

\* Arrhenius factor 2^-(2k/T), T in {1,2}, times 2^(2k)
Arr(k,T) == Pow(2, 2*k - (2*k) \div T)
=============================================================================
