------------------------------ MODULE TraceInit ------------------------------
(* Initial-condition generators and input/log utilities (utils/*.py).         *)
EXTENDS TraceBase, AmpeInit

None == -1
Def(v,d) == IF v = None THEN d ELSE v

\* components of a unit vector are logged as sign * square * 900
SgnSq(v) == LET N == v[1]*v[1] + (IF Len(v) > 1 THEN v[2]*v[2] ELSE 0) + (IF Len(v) > 2 THEN v[3]*v[3] ELSE 0) + (IF Len(v) > 3 THEN v[4]*v[4] ELSE 0)
            IN [k \in 1..Len(v) |-> (IF v[k] < 0 THEN -1 ELSE 1) * ((900*v[k]*v[k]) \div N)]
\* rotation by a degrees about the first axis, a in {0,60,90,120,180}: half angles
HalfTurn(a,len) == LET cs == CASE a = 0 -> <<900,0>> [] a = 60 -> <<675,225>> [] a = 90 -> <<450,450>> [] a = 120 -> <<225,675>> [] OTHER -> <<0,900>> IN
                 IF len = 2 THEN cs ELSE cs \o <<0,0>>
FullTurn(a,len) == LET cs == CASE a = 0 -> <<900,0>> [] a = 30 -> <<675,225>> [] a = 45 -> <<450,450>> [] a = 60 -> <<225,675>> [] OTHER -> <<0,900>> IN
                 IF len = 2 THEN cs ELSE cs \o <<0,0>>

\* decoded interface profile: <<1,0>> solid, <<2,0>> liquid, <<3,v>> with v the decoded value
\* (the profile reaches 0.985 and 0.015 a little more than four widths away from the interface)
Prof(o,v,deep,far) == CASE o[1] = 1 -> deep [] o[1] = 2 -> far [] OTHER -> o[1] = 3 /\ o[2] = v
BallProf(n,per,c,b,w,o) == LET D == Dist2(n,per,c,b.c) IN Prof(o, D, b.r > 4*w /\ D < Sq(b.r - 4*w), D > Sq(b.r + 4*w))

AllCells(n,f,P(_)) == Len(f) = CellsOf(n) /\ \A c \in 1..CellsOf(n) : P(c)

\* ------------------------------------------------------------- make_sphere
SphereBalls(p) ==
  LET n == p.n
      r1 == IF p.two THEN (IF p.r = None THEN 15*n[1] ELSE CellU*p.r) ELSE (IF p.r = None THEN 30*n[1] ELSE CellU*p.r)
  IN IF p.two
     THEN << [c |-> <<30*n[1],30*n[2],60*n[3]>>, r |-> r1], [c |-> <<90*n[1],90*n[2],60*n[3]>>, r |-> (r1*p.ratio) \div 2] >>
     ELSE << [c |-> [d \in 1..3 |-> IF p.cen[d] = None THEN 60*n[d] ELSE CellU*p.cen[d]], r |-> r1] >>

SphereQ(p,k) ==   \* orientation of grain k (0: outside)
  IF p.qlen = 1
  THEN (IF p.qmode = "given" THEN <<p.q[k+1]>> ELSE IF k = 0 THEN <<0>> ELSE <<IF k = 1 THEN p.angle ELSE -p.angle>>)
  ELSE (IF p.qmode = "given" THEN SgnSq(p.q[k+1]) ELSE IF k = 0 THEN SgnSq(IF p.qlen = 2 THEN <<1,0>> ELSE <<1,0,0,0>>) ELSE HalfTurn(p.angle,p.qlen))

NoPer == <<0,0,0>>

CkSphere(e,p) ==
  LET n == p.n  B == SphereBalls(p) IN
  IF ~e.ok THEN {"generated"} ELSE
  LET Own == [c \in 1..CellsOf(n) |-> Owner(n,NoPer,c,B)] IN
  Chk("phase", AllCells(n,e.phase,LAMBDA c : e.phase[c] = IF Own[c] = 0 THEN p.phout ELSE p.phin))
  \cup Chk("composition", AllCells(n,e.conc,LAMBDA c : e.conc[c] = IF Own[c] = 0 THEN p.cout ELSE p.cin))
  \cup Chk("orientation", AllCells(n,e.q,LAMBDA c : (p.two /\ p.qlen > 1 /\ p.qmode = "angle" /\ Own[c] = 2) \/ e.q[c] = SphereQ(p,Own[c])))

\* ------------------------------------------------------------- make_nuclei
RECURSIVE IRoot(_,_)
IRoot(m,k) == IF k*k >= m THEN k ELSE IRoot(m,k+1)
RECURSIVE CRoot(_,_)
CRoot(m,k) == IF k*k*k >= m THEN k ELSE CRoot(m,k+1)
NucleiCenters(p) ==
  LET n == p.n  m == p.ngrains
      flat == n[3] = 1
  IN CASE m = 1 -> IF p.cen # <<>> THEN << <<p.cen[1],p.cen[2], IF Len(p.cen) > 2 THEN p.cen[3] ELSE CellU>> >>
                   ELSE << <<60*n[1],60*n[2],IF flat THEN CellU ELSE 60*n[3]>> >>
       [] m = 2 -> << <<40*n[1],40*n[2],60*n[3]>>, <<80*n[1],80*n[2],60*n[3]>> >>
       [] OTHER ->   \* a square or cube of grains without jitter: the cell centres of a coarse grid, rounded down
            LET k == IF flat THEN IRoot(m,1) ELSE CRoot(m,1)
                C(g,d) == CellU*(((2*g+1)*n[d]) \div (2*k))
            IN IF flat THEN [g \in 1..m |-> <<C((g-1) \div k,1), C((g-1) % k,2), CellU>>]
               ELSE [g \in 1..m |-> <<C((g-1) \div (k*k),1), C(((g-1) \div k) % k,2), C((g-1) % k,3)>>]
NucleiBalls(p) == LET r == IF p.r = None THEN 12*p.n[1] ELSE CellU*p.r  C == NucleiCenters(p) IN
  [g \in 1..Len(C) |-> [c |-> C[g], r |-> IF p.ngrains = 2 /\ g = 2 THEN (3*r) \div 2 ELSE r]]

NucleiConc(p,k,vol,vs,ins) ==
  \* times vol-vs when the outside composition is computed, vs when the inside one is
  CASE p.cmode = "io"  -> IF ins THEN p.cin[k] ELSE p.cout[k]
    [] p.cmode = "n"   -> p.nom[k]
    [] p.cmode = "ni"  -> IF ins THEN p.cin[k]*(vol-vs) ELSE OutFor(p.nom[k],p.cin[k],vol,vs)
    [] OTHER           -> IF ins THEN InFor(p.nom[k],p.cout[k],vol,vs) ELSE p.cout[k]*vs
ConcScale(p,vol,vs) == CASE p.cmode = "ni" -> vol-vs [] p.cmode = "no" -> vs [] OTHER -> 1

CkNuclei(e,p) ==
  LET n == p.n  B == NucleiBalls(p)  vol == CellsOf(n) IN
  IF ~e.ok THEN {"generated"} ELSE
  LET Own == [c \in 1..vol |-> Owner(n,p.per,c,B)]
      vs == IF p.cmode \in {"ni","no"} THEN CountBalls(n,p.per,B) ELSE 0
      smooth == p.width > 0
      Near == [c \in 1..vol |-> Nearest(n,p.per,c,B)]
  IN Chk("phase", IF smooth
          THEN AllCells(n,e.phase,LAMBDA c : \E k \in Near[c] : BallProf(n,p.per,c,B[k],60*p.width,e.phase[c]))
          ELSE AllCells(n,e.phase,LAMBDA c : e.phase[c] = IF Own[c] = 0 THEN (IF p.three THEN 4 ELSE p.phout) ELSE p.phin))
  \cup (IF p.three THEN Chk("eta", AllCells(n,e.eta,LAMBDA c : e.eta[c] = IF Own[c] = 0 THEN 0 ELSE (Own[c]-1) % 2)) ELSE {})
  \cup (IF p.cmode = "-" THEN {} ELSE
          Chk("species", Len(e.conc) = Len(p.cin) /\ e.cscale = ConcScale(p,vol,vs))
          \* nothing to balance against when one of the two volumes is empty
          \cup Chk("composition", Len(e.conc) = Len(p.cin) /\ \A k \in 1..Len(e.conc) :
                     e.cscale = 0 \/ AllCells(n,e.conc[k],LAMBDA c : e.conc[k][c] = NucleiConc(p,k,vol,vs,Own[c] > 0))))
  \cup (IF p.temp = <<>> THEN {} ELSE
          Chk("temperature", AllCells(n,e.temp,LAMBDA c : e.temp[c] = IF Own[c] > 0 THEN p.temp[1] ELSE p.temp[2])))
  \cup (CASE p.qmode = "none"   -> {}
          [] p.qmode = "quat0"  -> Chk("orientation", AllCells(n,e.q,LAMBDA c : e.q[c] = SgnSq(p.q)))
          [] p.qmode = "out"    -> Chk("orientation", AllCells(n,e.q,LAMBDA c : e.q[c] = SgnSq(IF Own[c] > 0 THEN p.q ELSE p.qout)))
          \* Bain variants: cos(pi/8) first, sin(pi/8) at one axis per grain; logged as 8 s |s|, s = q^2 - 1/2
          [] p.qmode = "bain"   -> Chk("orientation", AllCells(n,e.q,LAMBDA c : \E k \in Near[c] :
                                     e.q[c] = [m \in 1..p.qlen |-> IF m = 1 THEN 1 ELSE IF (k-1 + m-2) % 3 = 0 THEN -1 ELSE -2]))
          [] OTHER -> Chk("one orientation per grain", AllCells(n,e.q,LAMBDA c : \E k \in Near[c] : e.q[c] = e.lab[k]))
                      \cup Chk("unit", p.qlen = 1 \/ \A k \in 1..Len(e.norm) : e.norm[k] = 1))

\* ------------------------------------------------------- make_multi_spheres
MultiBalls(p) == [g \in 1..Len(p.sph) |-> [c |-> <<p.sph[g][1],p.sph[g][2],IF p.n[3] = 1 THEN CellU ELSE p.sph[g][3]>>, r |-> p.sph[g][4]]]
CkMulti(e,p) ==
  LET n == p.n  B == MultiBalls(p) IN
  IF ~e.ok THEN {"generated"} ELSE
  LET Own == [c \in 1..CellsOf(n) |-> Owner(n,p.per,c,B)] IN
  Chk("one phase per sphere", Len(e.phase) = Len(B))
  \cup (IF Len(e.phase) # Len(B) THEN {} ELSE
         Chk("phase", \A g \in 1..Len(B) : AllCells(n,e.phase[g],LAMBDA c :
               IF p.width > 0 THEN BallProf(n,p.per,c,B[g],60*p.width,e.phase[g][c])
               ELSE e.phase[g][c] = IF InBall(n,p.per,c,B[g]) THEN 1 ELSE 0)))
  \cup (IF p.cout = <<>> THEN {} ELSE
         Chk("composition", Len(e.conc) = Len(p.cout) /\ \A k \in 1..Len(e.conc) : AllCells(n,e.conc[k],LAMBDA c :
               e.conc[k][c] = IF Own[c] = 0 THEN p.cout[k] ELSE IF p.ph[Own[c]] = "A" THEN p.cA[k] ELSE p.cB[k])))

\* ------------------------------------------------------------- make_bilayer
BiSlabs(p) ==
  LET len == p.n[p.ax]
      c == IF p.cen = None THEN 60*len ELSE p.cen
      r == IF p.r = None THEN (IF p.two THEN 15*len ELSE 30*len) ELSE CellU*p.r
  IN IF p.two THEN << [c |-> c \div 2, r |-> r], [c |-> 3*(c \div 2), r |-> (r*p.ratio) \div 2] >> ELSE << [c |-> c, r |-> r] >>
BiVs(p) == LET s == BiSlabs(p)
               area == CellsOf(p.n) \div p.n[p.ax]
               w == IF p.two THEN s[1].r + s[2].r ELSE s[1].r
           IN (2*w*area) \div CellU
CkBilayer(e,p) ==
  LET n == p.n  S == BiSlabs(p)  vol == CellsOf(n)  vs == BiVs(p) IN
  IF ~e.ok THEN {"generated"} ELSE
  LET In == [c \in 1..vol |-> { k \in 1..Len(S) : InSlab(n,c,S[k],p.ax) }]
      D(c,k) == Abs(Mid(n,c)[p.ax] - S[k].c)
      Near == [c \in 1..vol |-> IF Len(S) = 1 \/ D(c,1) <= D(c,2) THEN 1 ELSE 2]
  IN Chk("phase", IF p.delta > 0
          THEN AllCells(n,e.phase,LAMBDA c : LET d == D(c,1) - S[1].r IN Prof(e.phase[c], d, d < -480*p.delta, d > 480*p.delta))
          ELSE AllCells(n,e.phase,LAMBDA c : e.phase[c] = IF In[c] = {} THEN p.phout ELSE p.phin))
  \cup (IF p.cmode = "-" THEN {} ELSE
          Chk("species", Len(e.conc) = Len(p.cin) /\ e.cscale = ConcScale(p,vol,vs))
          \cup (IF p.delta > 0
                THEN Chk("mixed composition", \A k \in 1..Len(e.conc) : AllCells(n,e.conc[k],LAMBDA c :
                           e.conc[k][c] = 0))  \* logged: c - (phi ci + (1-phi) co), times 10000
                ELSE Chk("composition", Len(e.conc) = Len(p.cin) /\ \A k \in 1..Len(e.conc) : AllCells(n,e.conc[k],LAMBDA c :
                           e.conc[k][c] = NucleiConc(p,k,vol,vs,In[c] # {})))))
  \cup (IF p.temp = <<>> THEN {} ELSE
          Chk("temperature", AllCells(n,e.temp,LAMBDA c : e.temp[c] = 2*p.temp[1] + p.temp[2]*(2*CellAt(n,c)[1] - n[1] + 1))))
  \cup Chk("orientation", AllCells(n,e.q,LAMBDA c :
         e.q[c] = IF p.qlen = 1 THEN (IF p.qmode = "given" THEN <<p.q[Near[c]]>> ELSE <<IF Near[c] = 1 THEN 0 ELSE p.angle>>)
                  ELSE IF p.qmode = "given" THEN SgnSq(p.q[Near[c]])
                  ELSE IF Near[c] = 1 THEN SgnSq(IF p.qlen = 2 THEN <<1,0>> ELSE <<1,0,0,0>>)
                  ELSE IF p.qlen = 2 THEN FullTurn(p.angle,2) ELSE HalfTurn(p.angle,4)))

\* ------------------------------------------------------------- make4corners
CkCorners(e,p) ==
  LET n == p.n
      ctr == << <<0,0,60>>, <<0,CellU*n[2],60>>, <<CellU*n[1],0,60>>, <<CellU*n[1],CellU*n[2],60>> >>
      Solid(c) == \E g \in 1..4 : Dist2(n,NoPer,c,ctr[g]) <= Sq(60*n[1])
      Quad(c) == LET x == CellAt(n,c) IN IF 2*x[1] < n[1] THEN (IF 2*x[2] < n[2] THEN 1 ELSE 2) ELSE (IF 2*x[2] < n[2] THEN 3 ELSE 4)
      Q(g) == CASE g \in {1,2} -> <<1,1,1,1>> [] g = 3 -> <<-1,1,1,1>> [] OTHER -> <<1,-1,1,1>>
  IN IF ~e.ok THEN {"generated"} ELSE
     Chk("phase", AllCells(n,e.phase,LAMBDA c : e.phase[c] = IF Solid(c) THEN 1 ELSE 0))
     \cup Chk("orientation", p.qlen = 0 \/ AllCells(n,e.q,LAMBDA c : e.q[c] = SubSeq(Q(Quad(c)),1,p.qlen)))

\* ------------------------------------------ make_initial_grains_on_boundary
\* fractions in 1/960 of the domain; the interface sits at the solid fraction
\* along axis a, grains sit side by side along axis b
BdAx(p) == CASE p.plane = 0 -> [n |-> 1, t |-> 2, u |-> 3] [] p.plane = 2 -> [n |-> 3, t |-> 1, u |-> 2] [] OTHER -> [n |-> 2, t |-> 1, u |-> 3]
CkBoundary(e,p) ==
  LET n == p.n  A == BdAx(p)  vol == CellsOf(n)
      Fr(c) == (960*(2*CellAt(n,c)[A.n]+1)) \div (2*n[A.n]) - p.sf      \* signed distance to the front, in 1/960
      \* distance to the closest grain boundary along t, in half cells
      Gb(c) == IF p.ngrains = 1 THEN 1000 ELSE MinOf({ Abs((2*CellAt(n,c)[A.t]+1) - (2*g*n[A.t]) \div p.ngrains) : g \in 1..p.ngrains-1 })
      Grain(c) == 1 + ((CellAt(n,c)[A.t]*p.ngrains) \div n[A.t])
      Far(c) == Gb(c) >= 10
      solid(c) == Fr(c) < 0
  IN IF ~e.ok THEN {"generated"} ELSE
     Chk("phase", AllCells(n,e.phase,LAMBDA c : ~Far(c) \/
            (IF p.width = 0 THEN e.phase[c] = <<IF solid(c) THEN 1 ELSE 2,0>>
             ELSE IF Fr(c) > 96 THEN e.phase[c] = <<2,0>>
             ELSE Fr(c) = 96 \/ LET v == (Fr(c)*n[A.n]) \div 40 IN Prof(e.phase[c], v, v < -16*p.width, v > 16*p.width))))
     \* grooves at the grain boundaries: sin^2(pi/2 * distance/5 cells) of the profile, logged as <<phase, profile>> * 1000
     \cup Chk("grain boundary groove", \A c \in 1..vol : Far(c) \/ Gb(c) # 5 \/ p.ngrains # 2 \/ Abs(2*e.phi[c] - e.phi[e.ref[c]]) <= 2)
     \cup (IF p.cmode = "-" THEN {} ELSE Chk("composition", Len(e.mix) = Len(p.cin) /\ \A k \in 1..Len(e.mix) : AllCells(n,e.mix[k],LAMBDA c : e.mix[k][c] = 0)))
     \cup (CASE p.qmode = "none" -> {}
             [] p.qmode = "given" -> Chk("orientation", AllCells(n,e.q,LAMBDA c : e.q[c] = SgnSq(p.q)))
             [] p.qmode = "sharp" -> Chk("one orientation per grain", AllCells(n,e.q,LAMBDA c : ~solid(c) \/ Fr(c) > -240 \/ Gb(c) < 10 \/ e.q[c] = e.lab[Grain(c)]))
             \* three sweeps of the seven-point average spread a grain's orientation by at most three cells (never across a wall)
             [] OTHER -> Chk("smoothed inside", AllCells(n,e.q,LAMBDA c :
                   LET x == CellAt(n,c)[A.t]
                       d == IF p.pert = 1 THEN MinOf({Gb(c), 2*x+1, 2*n[A.t]-2*x-1}) ELSE Gb(c)
                   IN d <= 6 \/ e.q[c] = e.lab[Grain(c)])))

\* -------------------------------------------------- input and log utilities
CkSubst(e,p) ==
  Chk("same lines", Len(e.out) = Len(p.lines))
  \cup (IF Len(e.out) # Len(p.lines) THEN {} ELSE
     Chk("only the named parameter changes", \A k \in 1..Len(p.lines) :
        LET w == p.lines[k] IN
        e.out[k] = IF Len(w) > 0 /\ w[1] = p.name THEN [j \in 1..Len(w) |-> IF j = 3 THEN p.val ELSE w[j]] ELSE w)
     \cup Chk("other lines verbatim", \A k \in 1..Len(p.lines) : LET w == p.lines[k] IN (Len(w) > 0 /\ w[1] = p.name) \/ e.same[k] = 1))

\* the log is a list of <<"cycle",t>>, <<"frac",v>>, <<"other",0>>; each fraction goes with the time of the latest cycle line (0 before any)
RECURSIVE FracRows(_,_,_)
FracRows(log,k,t) == IF k > Len(log) THEN <<>>
  ELSE CASE log[k][1] = "cycle" -> FracRows(log,k+1,log[k][2])
         [] log[k][1] = "frac" -> << <<t,log[k][2]>> >> \o FracRows(log,k+1,t)
         [] OTHER -> FracRows(log,k+1,t)
CkFrac(e,p) == Chk("volume fraction history", e.rows = FracRows(p.log,1,0))

Check(e,h) ==
  CASE e.ev = "sphere"   -> CkSphere(e,e.p)
    [] e.ev = "nuclei"   -> CkNuclei(e,e.p)
    [] e.ev = "multi"    -> CkMulti(e,e.p)
    [] e.ev = "bilayer"  -> CkBilayer(e,e.p)
    [] e.ev = "corners"  -> CkCorners(e,e.p)
    [] e.ev = "boundary" -> CkBoundary(e,e.p)
    [] e.ev = "subst"    -> CkSubst(e,e.p)
    [] e.ev = "volfrac"  -> CkFrac(e,e.p)
    [] OTHER -> {"unknown"}
Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
================================================================================
