------------------------------- MODULE TraceFac -------------------------------
EXTENDS TraceBase, AmpeFac

Check(e,h) ==
  LET s == e.s  lev == s.lev  p == e.p  n == Len(lev)  D == Len(s.lo)
      LC == [i \in 1..n |-> LevelCells(lev,i)]
      Cells(i) == LC[i]
      Memo(f) == TLCEval([i \in 1..n |-> [c \in LC[i] |-> At(f[i],c)]])
      u == [k \in 1..p.depth |-> Memo([i \in 1..n |-> e.in.u[i][k]])]
      g2(k,i,c) == LET W == 8 + 3*At(e.in.phi[i],c)*(At(e.in.phi[i],c) - 4) IN IF p.wellf = "d" THEN p.well*W ELSE p.well \div 2
      M(i,c) == IF p.mv = 1 THEN At(e.in.m[i],c) ELSE p.m0
      Cf(k,i,c) == CASE p.type = "phase" -> 1 + p.gamma*M(i,c)*g2(k,i,c)
                     [] p.type = "phasetemp" -> p.gamma*M(i,c)*g2(k,i,c)
                     [] p.type = "conc" -> 1
                     [] OTHER -> IF p.cv[k] = 1 THEN At(e.in["c" \o ToString(k)][i],c) ELSE p.cc[k]
      Df(k,i,d,x) == CASE p.type \in {"phase","phasetemp"} -> -(p.gamma*p.eps*p.eps)
                       [] p.type = "conc" -> -(p.gamma*At(e.in["d" \o ToString(k)][i][d],x))
                       [] OTHER -> IF p.dv[k] = 1 THEN At(e.in["d" \o ToString(k)][i][d],x) ELSE p.dc[k]
      Rhs(k,i,c) == At(e.in.rhs[i][k],c)
      Out(k,i,c) == At(e.out.res[i][k],c)
      Each(P(_,_,_)) == \A k \in 1..p.depth : \A i \in 1..n : \A c \in LC[i] : Covered(lev,i,c) \/ P(k,i,c)
      Op(k,i,c) == OpK(s, LAMBDA a,b : u[k][a][b], LAMBDA a,d,x : Df(k,a,d,x), M, LAMBDA a,b : Cf(k,a,b), p.w, i, c)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "facresidual" -> Chk("residual", Each(LAMBDA k,i,c : Out(k,i,c) = s.K*Rhs(k,i,c) - Op(k,i,c)))
  [] e.ev = "facrhs" -> Chk("operator", Each(LAMBDA k,i,c : Out(k,i,c) = -Op(k,i,c)))
  [] e.ev = "facsmooth" ->
       LET i == p.ln  S == p.s
           v == [k \in 1..p.depth |-> TLCEval([c \in LC[i] |-> At(e.out.u[i][k],c)])]
           \* what the field is while cells of a colour are updated
           U0(k) == [a \in 1..n |-> [c \in LC[a] |-> S*u[k][a][c]]]
           U1(k) == [a \in 1..n |-> [c \in LC[a] |-> IF a = i /\ IsRed(lev,a,c) THEN v[k][c] ELSE S*u[k][a][c]]]
           Ok(k,c) == LET X == TLCEval(IF IsRed(lev,i,c) THEN U0(k) ELSE U1(k))
                          E(a,d,x) == Df(k,a,d,x)
                          Cc(a,b) == Cf(k,a,b)
                      IN Close(DiagK(s,E,M,Cc,i,c)*(v[k][c] - X[i][c]),
                               s.K*S*Rhs(k,i,c) - LevK(s, LAMBDA a,b : X[a][b], E, M, Cc, 0, i, c), ErrK(s,E,M,Cc,i,c))
       IN Chk("sweep", \A k \in 1..p.depth : \A c \in LC[i] : Ok(k,c))
          \cup Chk("other levels", \A k \in 1..p.depth : \A a \in 1..n : a = i \/ \A c \in LC[a] : At(e.out.u[a][k],c) = S*u[k][a][c])
          \cup Chk("repeated", \A k \in 1..p.depth : \A c \in LC[i] : Close(At(e.out.twice[i][k],c), At(e.out.again[i][k],c), 1))
  [] e.ev = "facrestrict" ->
       LET i == p.ln  N == Cardinality(FineUnder(lev,i,lev[i].boxes[1].lo)) IN
       Chk("restriction", \A k \in 1..p.depth : \A a \in 1..n : \A c \in LC[a] :
             At(e.out.u[a][k],c) = (IF a = i /\ Covered(lev,a,c) THEN SumOn(FineUnder(lev,a,c), LAMBDA y : u[k][a+1][y]) ELSE N*u[k][a][c]))
  [] e.ev = "facprolong" ->
       Chk("prolongation", \A k \in 1..p.depth : \A a \in 1..n : \A c \in LC[a] :
             At(e.out.u[a][k],c) = u[k][a][c] + (IF a = p.ln THEN (IF p.own = 1 THEN u[k][a-1][CoarseOf(lev,a,c)] ELSE Rhs(k,a-1,CoarseOf(lev,a,c))) ELSE 0))
  [] e.ev = "facweights" -> Chk("weights", \A i \in 1..n : \A c \in LC[i] : At(e.out.weight[i],c) = Weight(lev,i,c))
  [] e.ev = "facnorm" ->
       LET N == SumLevels(lev, LAMBDA i,c : Weight(lev,i,c))
           Q == SumTo(p.depth, LAMBDA k : SumLevels(lev, LAMBDA i,c : Weight(lev,i,c)*Sq(Rhs(k,i,c))))
       IN Chk("norm", Close(N*e.res.norm2[1], 64*Q, N))
  [] e.ev = "facsolve" ->
       LET v == [k \in 1..p.depth |-> TLCEval([i \in 1..n |-> [c \in LC[i] |-> At(e.out.u[i][k],c)]])]
           s2 == [s EXCEPT !.bg = [x \in DOMAIN s.bg |-> p.s*s.bg[x]]]
           E(k,a,d,x) == Df(k,a,d,x)
       IN Chk("converged", p.own = 1 => e.res.converged[1] = 1)
          \cup Chk("equation", e.res.converged[1] = 1 => Each(LAMBDA k,i,c :
                 Close(s.K*p.s*Rhs(k,i,c), OpK(s2, LAMBDA a,b : v[k][a][b], LAMBDA a,d,x : Df(k,a,d,x), M, LAMBDA a,b : Cf(k,a,b), p.w, i, c),
                       ErrK(s, LAMBDA a,d,x : Df(k,a,d,x), M, LAMBDA a,b : Cf(k,a,b), i, c))))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
