----------------------------- MODULE AmpeEnergy -----------------------------
(* The free energy AMPE reports: densities per cell and their volume-weighted *)
(* sums.  S is the common denominator of the event (S = 6 (2N)^5).            *)
EXTENDS AmpeRhs

NegLap(v,ih,c) == SumD(Len(c), LAMBDA d : ih[d]*ih[d]*(2*At(v,c) - At(v,Up(c,d)) - At(v,Dn(c,d))))
\* eps^2/2 phi (-Lap phi), times S
EPhi(p,phi,ih,c) == LET N == p.n IN
   (p.S \div (2*N*N)) * p.e2 * SumTo(p.np, LAMBDA m : At(phi[m],c)*NegLap(phi[m],ih,c))
\* well, times S
EWell(p,phi,c) == LET N == p.n IN
   (p.S \div (N*N*N*N)) * p.w * SumTo(p.np, LAMBDA m : W4(p.well,At(phi[m],c),N))
\* 2N * average phase on a side: arithmetic, or harmonic 2ab/(a+b)
SideAvg2(t,a,b) == IF t = "a" THEN a+b ELSE (4*a*b) \div (a+b)
ISq(n) == CHOOSE r \in 0..64 : r*r = n
SideNorm2(p,gq,d,x) == SumTo(p.depth, LAMBDA m : SumD(Len(x), LAMBDA e : Sq(At(gq[d][m][e],x))))
\* mean over the 2D sides of misor T p1(phi) |grad q|
EOrient(p,in,c) ==
  LET D == Len(c)
      one(m,d,x) == H5(p.p1,SideAvg2(p.avg,At(in.phi[m],Dn(x,d)),At(in.phi[m],x)),2*p.n)*ISq(SideNorm2(p,in.gq,d,x)+p.fl*p.fl)
  IN (12 \div (2*D)) * p.misor * At(in.temp,c) *
     SumTo(p.np, LAMBDA m : SumD(D, LAMBDA d : one(m,d,c) + one(m,d,Up(c,d))))
\* mean over the 2D sides of eps_q^2/2 p2(phi) |grad q|^2
EQint(p,in,c) ==
  LET D == Len(c) IN
  (12 \div (2*D)) * 32 * p.eq2 *
     SumTo(p.np, LAMBDA m : H5(p.p2,At(in.phi[m],c),p.n)) * SumD(D, LAMBDA d : SideNorm2(p,in.gq,d,c) + SideNorm2(p,in.gq,d,Up(c,d)))
\* bulk: (1-h) f_l + h f_a times N^5
EBulk(t,K,N,fl,fa) == H5("c",K,N)*fl + H5(t,K,N)*(fa-fl)

(* anisotropic interface energy eps(n)^2/2 |grad phi|^2 times 1024 *)
\* 2 * central gradient
Grad2(v,ih,c) == [d \in 1..Len(c) |-> ih[d]*(At(v,Up(c,d)) - At(v,Dn(c,d)))]
EAniso2(e2,g,q,Q,qlen,k,v) ==
  IF g[1] = 0 /\ g[2] = 0 THEN 0 ELSE
  LET cs == AnisoCS(g[1],g[2],k,RefDir(Max2(-Q,Min2(Q,q)),Q,qlen))
      e == 4096 + (cs[1] + 2*v) \div (4*v)
      ee == (e*e + 2048) \div 4096
  IN (e2*ee*(g[1]*g[1]+g[2]*g[2])) \div 32
EAniso3(e2,g,q,v) ==
  IF VNorm2(g) = 0 THEN 0 ELSE
  LET u == Cubic4(VScale(2,g),VScale(2,q))
      n4 == SumM(3, LAMBDA i : (u[i]*u[i]) \div 4096)
      ga == 4096 + (4*n4 - 3*4096) \div v
      gg == (ga*ga) \div 4096
  IN (e2*gg*VNorm2(g)) \div 32
=============================================================================
