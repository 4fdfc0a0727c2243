----------------------------- MODULE TraceEnergy -----------------------------
EXTENDS TraceBase, AmpeEnergy

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      \* per-cell output: F (on top of the contents before, if acc), only when asked for
      PerCell(o,pr,F(_),acc) == Written(o, pr, IF p.per = 1 THEN cells ELSE {}, LAMBDA c : F(c) + (IF acc THEN At(pr,c) ELSE 0))
      \* totals: contents before + weighted sum
      Tot(n,F(_)) == e.s1[n][1] = e.s0[n][1] + SumOn(cells, LAMBDA c : At(in.weight,c)*F(c))
      TotNear(n,F(_),Tl(_)) == Close(e.s1[n][1], e.s0[n][1] + SumOn(cells, LAMBDA c : At(in.weight,c)*F(c)), 2+SumOn(cells, LAMBDA c : At(in.weight,c)*Tl(c)))
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "quatenergy" ->
       LET on == p.misor > 0
           F1 == [c \in cells |-> EPhi(p,in.phi,ih,c)]
           F2 == [c \in cells |-> IF on THEN EOrient(p,in,c) ELSE 0]
           F3 == [c \in cells |-> IF on THEN EQint(p,in,c) ELSE 0]
           F4 == [c \in cells |-> EWell(p,in.phi,c)]
           All(c) == F1[c]+F2[c]+F3[c]+F4[c]
       IN Chk("phi", Tot("phi_e", LAMBDA c : F1[c])) \cup Chk("orient", Tot("orient_e", LAMBDA c : F2[c]))
          \cup Chk("qint", Tot("qint_e", LAMBDA c : F3[c])) \cup Chk("well", Tot("well_e", LAMBDA c : F4[c]))
          \cup Chk("total", Tot("tot", All)) \cup Chk("density", PerCell(out.energy, e.pre.energy, All, FALSE))
  [] e.ev = "anisoenergy" ->
       LET F1 == [c \in cells |-> SumTo(p.np, LAMBDA m : LET g == Grad2(in.phi[m],ih,c) IN
                     IF D = 2 THEN EAniso2(p.e2,g,At(in.quat[1],c),p.q,p.depth,p.k,p.v)
                     ELSE EAniso3(p.e2,g,[m2 \in 1..4 |-> At(in.quat[m2],c)],p.v))]
           F4 == [c \in cells |-> EWell(p,in.phi,c)]
           All(c) == F1[c]+F4[c]
           Tol(c) == 8 + Abs(F1[c]) \div 128
       IN Chk("phi", TotNear("phi_e", LAMBDA c : F1[c], Tol)) \cup Chk("orient", e.s1.orient_e = e.s0.orient_e)
          \cup Chk("qint", e.s1.qint_e = e.s0.qint_e) \cup Chk("well", Tot("well_e", LAMBDA c : F4[c]))
          \cup Chk("total", TotNear("tot", All, Tol))
          \cup Chk("density", \A c \in Dom(out.energy) : IF p.per = 0 THEN At(out.energy,c) = At(e.pre.energy,c)
                                                          ELSE Close(At(out.energy,c), All(c), Tol(c)))
  [] e.ev = "bulkenergy" ->
       LET F == [c \in cells |-> EBulk(p.h,At(in.phi,c),p.n,At(in.fl,c),At(in.fa,c))]
           FF(c) == F[c]
       IN Chk("free", Tot("free_e", FF)) \cup Chk("total", Tot("tot", FF)) \cup Chk("density", PerCell(out.energy, e.pre.energy, FF, TRUE))
  [] e.ev = "tempenergy" -> Chk("density", WrittenF(out.fl, Filler, cells, LAMBDA c : (8 \div p.tm)*p.la*(p.tm - At(in.temp,c))))
  [] e.ev = "phiphi" ->
       LET n == p.np
           F(i,j,c) == p.gm*p.m*Sq(At(in.phi[i],c))*Sq(At(in.phi[j],c))
       IN Chk("pair", \A i,j \in 1..n : e.s1.tot[n*(i-1)+j] = e.s0.tot[n*(i-1)+j] + SumOn(cells, LAMBDA c : At(in.weight,c)*F(i,j,c)))
          \cup Chk("density", PerCell(out.energy, e.pre.energy, LAMBDA c : SumTo(n, LAMBDA i : SumTo(n, LAMBDA j : F(i,j,c))), FALSE))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
