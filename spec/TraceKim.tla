------------------------------- MODULE TraceKim -------------------------------
(* Phase mobilities of thin-interface models (Kim): 1/M = alpha + beta zeta for two phases, pairs of         *)
(* interfaces for three.                                                                                       *)
EXTENDS TraceBase, AmpeAmr

\* 2^k 163840 / M for two phases; D: (cl-cs) in quarters
F47(p) == IF p.h = "p" THEN 47 ELSE 30
Zeta(p,dT) == p[1] + p[2]*dT + p[3]*dT*dT
KAlpha(p) == IF p.law = "inf" THEN 0 ELSE ((Pow(2,p.k)*163840) \div (2*p.sw*p.M))*3*p.e
KExp(p,t) == IF p.q = 0 THEN 0 ELSE (2*p.q) \div t
KOn(p,t) == p.q = 0 \/ (2*p.q) % t = 0
KBeta(p,D,t) ==
  IF p.law = "finite" THEN 0
  ELSE IF p.given = 1 THEN (64 \div (p.sw*p.sw))*F47(p)*p.e*p.e*16*Zeta(p.za,t)
  ELSE ((64 \div (p.sw*p.sw*p.DL))*F47(p)*p.e*p.e)*2*p.A*D*D*Pow(2,KExp(p,t))
\* 65536 times the mobility of three phases over the common factor; phases in twelfths
KPair(z,t) == 65536 \div Zeta(z,t)
K3(p,f,t,v) ==
  LET a == KPair(p.za,t)  b == KPair(p.zb,t)  lo == Min2(a,b)  hi == Max2(a,b) IN
  IF 12 \in {f[1],f[2],f[3]} THEN lo - 4 <= v /\ v <= hi + 4
  ELSE IF f[3] = 0 THEN Close(v,a,4)
  ELSE IF f[2] = 0 THEN Close(v,b,4)
  ELSE IF f[1] = 0 \/ f[2] = f[3] THEN Close(2*v,a+b,8)
  ELSE lo - 4 <= v /\ v <= hi + 4

Check(e,h) ==
  IF e.ev = "kimerror" THEN {e.what} ELSE
  IF ~(e.ev = "kim") THEN {"unknown"} ELSE
  LET p == e.p IN
  IF p.law = "none" THEN Chk("refused", e.err = 1) ELSE
  Chk("guard", e.g = 1 /\ e.err = 0)
  \cup Chk("where", \A u \in 1..Len(e.lev) : \A c \in LevelCells(e.lev,u) : At(e.out[u].on,c) = 1)
  \cup Chk("mobility", \A u \in 1..Len(e.lev) : \A c \in Dom(e.out[u].on) : At(e.out[u].on,c) = 1 =>
        LET t == At(e.inp.temp[u],c)  v == At(e.out[u].v,c) IN
        IF p.law = "three" THEN K3(p, [i \in 1..3 |-> At(e.inp.phi[u][i],c)], t, v)
        ELSE KOn(p,t) => Close(v, KAlpha(p) + KBeta(p, At(e.inp.cl[u],c) - At(e.inp.ca[u],c), t), 4))

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
