------------------------------- MODULE TraceAmr -------------------------------
EXTENDS TraceBase, AmpeAmr

OnAll(e, out, F(_,_)) == \A u \in DOMAIN e.lev : \A c \in Dom(out[u]) : At(out[u],c) = (IF OnLevel(e.lev,u,c) THEN F(u,c) ELSE Filler)
Check(e,h) ==
  LET D == e.dim  lev == e.lev  p == e.p
      n == Len(lev)
      W == [u \in 1..n |-> [c \in LevelCells(lev,u) |-> Weight(lev,u,c)]]
      Tot(F(_,_)) == SumTo(n, LAMBDA u : SumOn(LevelCells(lev,u), LAMBDA c : W[u][c]*F(u,c)))
      Has(x) == x \in DOMAIN e.res
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "weights" ->
       Chk("weight", OnAll(e, e.out.w, LAMBDA u,c : W[u][c]))
       \cup Chk("integral", \A k \in 1..p.nc : Close(e.res.integral[k], Tot(LAMBDA u,c : At(e.in.conc[u][k],c)), 0))
       \cup Chk("fraction", \A k \in 1..p.np : e.res.fraction[k] = Tot(LAMBDA u,c : At(e.in.phi[u][k],c)))
       \cup Chk("volume", Has("volume") => e.res.volume[1] = Tot(LAMBDA u,c : SumTo(p.np, LAMBDA k : At(e.in.phi[u][k],c))))
       \cup Chk("phase composition", Has("phaseconc") => \A k \in 1..p.nc : e.res.phaseconc[k] = Tot(LAMBDA u,c : At(e.in.phi[u][1],c)*At(e.in.conc[u][k],c)))
       \cup Chk("thermal", Has("thermal") => e.res.thermal[1] = Tot(LAMBDA u,c : At(e.in.cp[u],c)*At(e.in.temp[u],c) - p.la*SumTo(p.np, LAMBDA k : At(e.in.phi[u][k],c))))
       \cup Chk("by component", Has("depth") => e.res.depth[1] = Tot(LAMBDA u,c : At(e.in.conc[u][p.comp],c)))
  [] e.ev = "subdomain" ->
       LET In(u,c) == Middle(lev,u,p.n,p.f,c)
           A == [u \in 1..n |-> [c \in LevelCells(lev,u) |-> At(e.out.wd[u],c)]]
           s == SumLevels(lev, LAMBDA u,c : A[u][c])
           v == SumLevels(lev, LAMBDA u,c : A[u][c]*At(e.in.phi[u][p.void],c))
       IN Chk("weight", \A u \in 1..n : \A c \in Dom(e.out.wd[u]) :
                 At(e.out.wd[u],c) \in (IF ~OnLevel(lev,u,c) THEN {Filler} ELSE IF In(u,c) = 1 THEN {W[u][c]} ELSE IF In(u,c) = -1 THEN {0} ELSE {0, W[u][c]}))
          \cup Chk("composite weight", OnAll(e, e.out.w, LAMBDA u,c : W[u][c]))
          \cup Chk("density", Has("density") => Close(e.res.density[1]*s, 1024*(s-v), s))
  [] e.ev = "copies" ->
       Chk("cell", OnAll(e, e.out.dst, LAMBDA u,c : At(e.in.conc[u][p.comp],c)))
       \cup Chk("average", \A u \in 1..n : \A c \in LevelCells(lev,u) : At(e.out.avg[u][p.to],c) = (12 \div (2*D))*SumD(D, LAMBDA d : At(e.in.s[u][d][p.from],c) + At(e.in.s[u][d][p.from],Up(c,d))))
       \cup Chk("average only", \A u \in 1..n : \A k \in DOMAIN e.out.avg[u] : k = p.to \/ \A c \in Dom(e.out.avg[u][k]) : At(e.out.avg[u][k],c) = Filler)
       \cup Chk("side", \A u \in 1..n : \A d \in 1..D : \A c \in LevelCells(lev,u) : \A x \in {c, Up(c,d)} : At(e.out.sd[u][d],x) = At(e.in.s[u][d][p.from],x))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
