------------------------------- MODULE TraceTag -------------------------------
EXTENDS TraceBase, AmpeTag

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      Exactly(S) == \A c \in cells : At(out.tag,c) = (IF c \in S THEN 1 ELSE 0)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "tag1" \/ e.ev = "tagq" ->      \* one criterion on top of tags present
       Chk("cells", \A c \in Dom(out.tag) : At(out.tag,c) = (IF c \in cells /\ Over([k \in 1..p.n |-> in.g[k]],p.hh,p.n,p.t,c) THEN 1 ELSE At(e.pre.tag,c)))
  [] e.ev = "tags" ->       \* all criteria of a patch
       LET G1(f) == <<[d \in 1..D |-> f[d]]>>
           Gq == [k \in 1..p.n |-> [d \in 1..D |-> in.gq[k][d]]]
           S == { c \in cells : Over(G1(in.gp),p.hh,1,p.tp,c) \/ Over(G1(in.ge),p.hh,1,p.te,c) \/ Over(Gq,p.hh,p.n,p.tq,c) }
       IN Chk("cells", \A c \in Dom(out.tag) : At(out.tag,c) = (IF c \in S THEN 1 ELSE IF c \in cells THEN 0 ELSE At(out.tag,c)))
  [] e.ev = "detect" ->
       LET S == { c \in cells : OverField(<<in.phi>>,1,lo,hi,p.tp,c) \/ OverField(in.q,p.n,lo,hi,p.tq,c) }
       IN Chk("cells", Exactly(S))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
