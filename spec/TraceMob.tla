------------------------------- MODULE TraceMob -------------------------------
EXTENDS TraceBase, AmpeMob

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      Sides(F(_,_)) == \A d \in 1..D : WrittenF(out.fc[d], Filler, SideBox(lo,hi,d), LAMBDA x : F(d,x))
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "quatmobility" ->
       Chk("value", WrittenF(out.mob, Filler, Dom(out.mob), LAMBDA c : QuatMob(p.t,At(in.phi,c),p.n,p.m,p.alt,p.mn,p.sc)))
  [] e.ev = "quatmobderiv" ->
       Chk("value", \A c \in Dom(out.mob) : IF c \in cells
                        THEN LET K == At(in.phi,c) IN MobSat(p.t,K,p.n,p.alt) \/ At(out.mob,c) = (p.sc-p.mn)*DMobNum(p.t,K,p.n,p.m)
                        ELSE At(out.mob,c) = Filler)
  [] e.ev = "facecoef" -> Chk("value", Sides(LAMBDA d,x : FaceCoef(p,in,d,x)))
  [] e.ev = "dcoef" ->
       Chk("value", \A w \in 0..1 : \A d \in 1..D : WrittenF(out.fc[d][w+1], Filler, SideBox(lo,hi,d), LAMBDA x : DerivCoef(p,in,d,x,w)))
  [] e.ev = "dqdphicoef" ->
       Chk("value", Sides(LAMBDA d,x : -(At(in.dp[d][1],x)*At(in.phi,Dn(x,d)) + At(in.dp[d][2],x)*At(in.phi,x))))
  [] e.ev = "phasemob" -> Chk("value", WrittenF(out.mob, Filler, IF p.all = 1 THEN Dom(out.mob) ELSE cells, LAMBDA c : p.m0*(IF p.all = 1 THEN 1 ELSE Arr(p.k,At(in.temp,c)))))
  [] e.ev = "etamob" ->
       LET N5 == p.n*p.n*p.n*p.n*p.n
           F(c) == LET m == p.m0*Arr(p.k,At(in.temp,c)) IN N5*m - H5("p",At(in.phi,c),p.n)*(m - p.mn*Pow(2,2*p.k))
       IN Chk("value", \A c \in Dom(out.mob) : At(out.mob,c) = (IF c \in cells THEN F(c) ELSE IF p.k = 0 /\ p.mn = p.m0 THEN N5*p.m0 ELSE Filler))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
