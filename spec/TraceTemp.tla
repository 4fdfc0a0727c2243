----------------------------- MODULE TraceTemp -----------------------------
EXTENDS TraceBase, AmpeTemp

Check(e,h) ==
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p  in == e.in  out == e.out
      cells == Box(lo,hi)
      Cells(o,F(_)) == WrittenF(o, Filler, cells, F)
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "rhstemp" -> Chk("rate", Cells(out.rhs, LAMBDA c : TempRate4(p,in,ih,c)))
  [] e.ev = "source" -> Chk("source", Cells(out.rhs, LAMBDA c : Source4(p,in,c)))
  [] e.ev = "heatcap" -> Chk("cp", Cells(out.cp, LAMBDA c : HeatCap16(p,in,c)))
  [] e.ev = "gaussian" ->   \* ghosts included
       Chk("profile", \A c \in Dom(out.var) : Close(At(out.var,c), 1048576*p.base + (p.peak-p.base)*Gauss20(p,lo,c), 64*Abs(p.peak-p.base)))
  [] e.ev = "gsource" ->
       Chk("profile", \A c \in Dom(out.rhs) : IF c \notin cells THEN At(out.rhs,c) = Filler ELSE
         Close(At(out.rhs,c)*At(in.cp,c), p.heat*Gauss20(p,lo,c), 64*Abs(p.heat)))
  [] e.ev = "meltline" -> Chk("profile", Cells(out.temp, LAMBDA c : p.tref + p.slope*(At(in.conc,c)-p.cref)))
  [] e.ev = "gradient" -> Chk("profile", \A c \in Dom(out.var) : 2*At(out.var,c) = Gradient8(p,lo,c))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
