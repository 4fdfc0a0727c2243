------------------------------ MODULE TraceTrans ------------------------------
EXTENDS TraceBase, AmpeTrans

Code(v) == v >= 1073741820 \/ v <= -1073741820
Check(e,h) ==
  CASE e.ev = "least" ->
       Chk("least mark", \A c \in Dom(e.out) : At(e.out,c) = (IF InSome(c,e.boxes) THEN Least(c,e.ra,LAMBDA x : At(e.fine,x)) ELSE e.keep))
       \cup Chk("stencil width", e.width = 0)
  [] e.ev = "average" ->
       LET n == Len(e.out)
           S(c,m) == SumUnder(c,e.ra,LAMBDA x : At(e.fine[m],x))
       IN Chk("elsewhere", \A m \in 1..n : \A c \in Dom(e.out[m]) : ~InSome(c,e.boxes) => At(e.out[m],c) = Filler)
          \cup (IF n = 1 THEN Chk("mean", \A c \in Dom(e.out[1]) : InSome(c,e.boxes) => At(e.out[1],c) = S(c,1))
                ELSE Chk("mean direction", \A c \in Dom(e.out[1]) : InSome(c,e.boxes) =>
                            (\A m \in 1..n : ~Code(At(e.out[m],c))) /\ Along([m \in 1..n |-> At(e.out[m],c)], [m \in 1..n |-> S(c,m)], e.q)))
          \cup Chk("stencil width", e.width = 0)
  [] e.ev = "symaverage" ->
       LET n == Len(e.out)
           Q(x) == [m \in 1..n |-> At(e.fine[m],x)]
           S(c) == LET u == TLCEval([x \in Under(c,e.ra) |-> Seen(Q([d \in DOMAIN c |-> c[d]*e.ra[d]]), Q(x))])
                   IN TLCEval([m \in 1..n |-> SumOn(Under(c,e.ra), LAMBDA x : u[x][m])])
       IN Chk("elsewhere", \A m \in 1..n : \A c \in Dom(e.out[m]) : ~InSome(c,e.boxes) => At(e.out[m],c) = Filler)
          \cup Chk("mean orientation", \A c \in Dom(e.out[1]) : InSome(c,e.boxes) =>
                     (\A m \in 1..n : ~Code(At(e.out[m],c))) /\ (LET o == S(c) IN Roughly([m \in 1..n |-> At(e.out[m],c)], o, e.q, 2)))
  [] e.ev = "symlinear" ->
       LET n == Len(e.out)
           D == Len(e.ra)
           Q(x) == [m \in 1..n |-> At(e.coarse[m],x)]
           known == { x \in Dom(e.coarse[1]) : ~Code(At(e.coarse[1],x)) }
           Near(C) == Box([d \in 1..D |-> C[d] - 1],[d \in 1..D |-> C[d] + 1]) \cap known
           fine == { f \in Dom(e.out[1]) : InSome(f,e.boxes) }
       IN Chk("elsewhere", \A m \in 1..n : \A f \in Dom(e.out[m]) : ~InSome(f,e.boxes) => At(e.out[m],f) = Filler)
          \cup Chk("interpolated orientation", \A C \in { Over(f,e.ra) : f \in fine } :
                LET u == TLCEval([x \in Near(C) |-> Seen(Q(C),Q(x))])
                IN \A f \in Under(C,e.ra) \cap fine :
                     (\A m \in 1..n : ~Code(At(e.out[m],f))) /\
                     (LET o == TLCEval([m \in 1..n |-> Linear(f,e.ra,LAMBDA x : u[x][m])])
                      IN Roughly([m \in 1..n |-> At(e.out[m],f)], o, e.q, 2)))
          \cup Chk("stencil width", e.width = 1)
  [] e.ev = "transerror" -> {e.what}
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
