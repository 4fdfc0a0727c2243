------------------------------- MODULE TraceSys -------------------------------
EXTENDS TraceBase, AmpeSys, AmpeAmr

Check(e,h) ==
  CASE e.ev = "same" ->
       UNION { Chk(e.pairs[i].what, SameUnder(e.pairs[i].a, e.pairs[i].b, e.pairs[i].n, e.perm, e.refl, e.pairs[i].sh, 8)) : i \in DOMAIN e.pairs }
       \cup (IF e.mode = "whole" THEN {} ELSE Chk("energies", Len(e.ea) = Len(e.eb) /\ \A k \in DOMAIN e.ea : Close(e.ea[k], e.eb[k], 8)))
  [] e.ev = "slab" -> UNION { Chk(e.pairs[i].what, SameLayers(e.pairs[i].a, e.pairs[i].b, 8)) : i \in DOMAIN e.pairs }
  [] e.ev = "closed" ->
       LET D == e.dim
           lev == e.lev
           nl == Len(lev)
           nc == Len(e.rate[1])
           cells == [u \in 1..nl |-> LevelCells(lev,u)]
           hm == Max({ e.hinv[u][d] : u \in 1..nl, d \in 1..D })
           Div(u,k,c) == SumD(D, LAMBDA d : e.hinv[u][d]*(At(e.flux[u][d][k], Up(c,d)) - At(e.flux[u][d][k], c)))
           N(u) == [d \in 1..D |-> e.n[d]*RZero(lev,u,d)]
           \* faces on a wall
           Wall(u,d,c) == e.per[d] = 0 /\ (c[d] = 0 \/ c[d] = N(u)[d])
           Fine(u,d,c) == FinerFaces(lev, u+1, d, c)
       IN Chk("rate", \A u \in 1..nl : \A k \in 1..nc : \A c \in cells[u] : Close(At(e.rate[u][k],c), e.mob*Div(u,k,c), 2 + D*hm*e.mob))
          \cup Chk("total", \A k \in 1..nc :
                 LET W(u,c) == Weight(lev,u,c) IN
                 Abs(SumTo(nl, LAMBDA u : SumOn(cells[u], LAMBDA c : W(u,c)*At(e.rate[u][k],c))))
                   <= (2 + D*hm*e.mob)*SumTo(nl, LAMBDA u : SumOn(cells[u], LAMBDA c : W(u,c))))
          \cup Chk("wall", \A u \in 1..nl : \A k \in 1..nc : \A d \in 1..D : \A c \in cells[u] : \A x \in {c, Up(c,d)} : Wall(u,d,x) => At(e.flux[u][d][k],x) = 0)
          \cup Chk("composite flux", \A u \in 1..(nl-1) : \A k \in 1..nc : \A d \in 1..D : \A c \in cells[u] : \A x \in {c, Up(c,d)} :
                 LET F == Fine(u,d,x) IN F # {} => Close(Cardinality(F)*At(e.flux[u][d][k],x), SumOn(F, LAMBDA y : At(e.flux[u+1][d][k],y)), 1 + Cardinality(F)))
  [] e.ev = "syserror" -> {e.what}
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
