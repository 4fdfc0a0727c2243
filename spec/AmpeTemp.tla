------------------------------ MODULE AmpeTemp ------------------------------
(* Heat equation: conduction, latent heat, sources, heat capacity, prescribed *)
(* temperature profiles.                                                      *)
EXTENDS AmpeGrad

\* latent heat and conduction; everything over cp except conduction (times 4)
TempRate4(p,in,ih,c) ==
  4*p.coef*Lap(in.temp,ih,c) + (IF p.phase = 0 THEN 0 ELSE ((4*p.latent) \div At(in.cp,c))*At(in.phirhs,c))
\* 4 * (x s1 + (1-x) s2)/cp
Source4(p,in,c) == LET x == At(in.conc,c) IN (x*p.src[1] + (1-x)*p.src[2])*(4 \div At(in.cp,c))

\* 16 * t^k for t in {1,2,4}, k in -2..2
P16(t,k) == CASE k = 0 -> 16 [] k = 1 -> 16*t [] k = 2 -> 16*t*t [] k = -1 -> 16 \div t [] k = -2 -> 16 \div (t*t)
\* Neumann-Kopp: sum over species of fraction times polynomial; the last species has the rest
SpeciesCp(p,t,m) == SumTo(p.npow, LAMBDA q : p.co[(m-1)*p.npow+q]*P16(t,p.pow[q]))
HeatCap16(p,in,c) ==
  LET t == At(in.temp,c) IN
  SumTo(p.nc, LAMBDA m : SpeciesCp(p,t,m)*At(in.conc[m],c))
  + SpeciesCp(p,t,p.nc+1)*(1 - SumTo(p.nc, LAMBDA m : At(in.conc[m],c)))

\* 2 * coordinate of a cell centre
X2(p,lo,c,d) == 2*p.xlo[d] + p.dx[d]*(2*(c[d]-lo[d])+1)
\* 2 * distance to the centre, or to the nearest of its periodic images
Dist2(p,lo,c,d) ==
  LET y == X2(p,lo,c,d) - 2*p.ctr[d] IN
  IF p.ll[d] > 0 THEN Min2(Abs(y), Min2(Abs(y+2*p.ll[d]), Abs(y-2*p.ll[d]))) ELSE Abs(y)
\* 2^20 2^(-n/256)
RECURSIVE Half(_,_)
Half(x,k) == IF k = 0 \/ x = 0 THEN x ELSE IF k >= 12 THEN Half(x \div 4096, k-12) ELSE Half(x \div 2, k-1)
\* 2^20 * 2^(-(2^-j)), j = 1..8
Root == <<741455,881744,961548,1004120,1026107,1037281,1042913,1045741>>
Mul20(x,y) == ((x \div 1024)*y + ((x % 1024)*y) \div 1024) \div 1024
RECURSIVE MulRoot(_,_,_)
MulRoot(x,f,j) == IF j > 8 THEN x ELSE MulRoot(IF (f \div (2^(8-j))) % 2 = 1 THEN Mul20(x,Root[j]) ELSE x, f, j+1)
\* 2^20 * 2^(-n/256), n >= 0
Exp2m(n) == IF n >= 256*24 THEN 0 ELSE Half(MulRoot(1048576, n % 256, 1), n \div 256)
\* squared distance is R/4 (in u^2); exponent -(R/4)/g in 256ths
Gauss20(p,lo,c) == LET R == SumD(Len(c), LAMBDA d : Sq(Dist2(p,lo,c,d))) IN Exp2m((64*R) \div p.g)

Gradient8(p,lo,c) == (8*p.tref*2 + SumD(Len(c), LAMBDA d : p.grad[d]*(X2(p,lo,c,d)-2*p.ctr[d])))
=============================================================================
