------------------------------ MODULE TraceQuat ------------------------------
EXTENDS TraceBase, AmpeQuat

ISqrt(n) == CHOOSE r \in 0..200 : r*r = n
VClose(u,v,t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i],v[i],t)
DiffSides(lo,hi,d) ==
  Box([e \in 1..Len(lo) |-> IF e = d THEN lo[e] ELSE lo[e]-1],
      [e \in 1..Len(hi) |-> hi[e]+1])
\* vector field out (list of components) equals F on W and is untouched elsewhere
VWritten(out,W,F(_),t) ==
  \A c \in Dom(out[1]) : IF c \in W THEN VClose(VAt(out,c),F(c),t) ELSE \A m \in 1..Len(out) : At(out[m],c) = Filler
Wrap9(iq) == IF iq = 0 \/ iq > 9 \/ iq < -9 THEN 1 ELSE iq

Check(e,h) ==
  CASE e.ev = "group" ->   \* the operation table, read through the identity: entries logged times 1000
       LET R == [i \in 1..Len(e.tab) |-> Rep(e.tab[i])] IN
       Chk("table", /\ Len(R) = Cardinality(Group(e.n)) /\ { R[i] : i \in 1..Len(R) } = Group(e.n)
                    /\ R[1] = (IF e.n = 4 THEN One4 ELSE One2)
                    /\ \A i \in 1..Len(R) : \A j \in 1..e.n :
                         e.tab[i][j] = R[i][j] * (CASE VNorm2(R[i]) = 1 -> 1000 [] VNorm2(R[i]) = 2 -> 707 [] OTHER -> 500))
  \cup Chk("conjugate", \A i \in 1..Len(R) : Rep(e.ctab[i]) = Conj(R[i]))
  [] e.ev = "group1" ->    \* angles, in 64ths of a quarter turn
       Chk("table", { e.tab[i] : i \in 1..9 } = { 64*k : k \in -4..4 } /\ e.tab[1] = 0)
  \cup Chk("conjugate", \A i \in 1..9 : e.ctab[i] = -e.tab[i])
  [] e.ev = "findsymm" ->
       LET r == e.tab[e.iq]  k == e.iqr IN
       Chk("index", e.iq \in 1..Len(e.tab))
  \cup Chk("closest", \A i \in 1..Len(e.tab) : Closeness(e.q1,e.q2,e.tab[i]) <= Closeness(e.q1,e.q2,r))
  \cup Chk("rotated", VClose(e.q2p, RotS(VScale(1024,e.q2),r), 3) /\ VClose(e.rot, RotS(VScale(1024,e.q2),r), 3))
  \cup Chk("inverse", VClose(e.back, VScale(1024,e.q2), 3))
  \cup Chk("input", e.keep = 1)
  [] e.ev = "findsymm1" ->  \* angles in 64ths of a quarter turn
       Chk("closest", \A k \in -4..4 : Abs(e.q1 - e.q2p) <= Abs(e.q1 - e.q2 - 64*k))
  \cup Chk("rotated", \E k \in -4..4 : e.q2p = e.q2 + 64*k /\ e.rot = e.q2p /\ e.back = e.q2)
  [] e.ev = "algebra" ->
       Chk("product", e.mul = Mul(e.a,e.b))
  \cup Chk("arith", e.add = VAdd(e.a,e.b) /\ e.sub = VSub(e.a,e.b) /\ e.msq = VNorm2(e.a) /\ e.conj = Conj(e.a)
             /\ e.sw1 = e.b /\ e.sw2 = e.a)
  [] e.ev = "norm" ->    \* a has integer norm e.m; norm logged times 5040
       Chk("magnitude", e.m*e.m = VNorm2(e.a) /\ e.mag = e.m)
  \cup Chk("normalised", \A i \in 1..Len(e.a) : IF e.m = 0 THEN e.nrm[i] = 0 ELSE e.nrm[i]*e.m = 5040*e.a[i])
  [] e.ev = "wrap1" -> Chk("wrap", \A i \in 1..Len(e.a) : e.w[i] = Wrap(e.a[i],64))
  [] e.ev = "rotmat" ->
       Chk("matrix", e.r = RotMat(e.q))
  \cup Chk("derivative", \A m \in 1..4 : e.dr[m] = DRot2(e.q,m))
  \cup Chk("complex", e.cr = CRot(e.cq) /\ e.dcr[1] = <<<<1,0,0>>,<<0,1,0>>,<<0,0,0>>>>
                      /\ e.dcr[2] = <<<<0,-1,0>>,<<1,0,0>>,<<0,0,0>>>>)
  \cup Chk("cubic", \A n \in 1..Len(e.idx) : LET x == e.idx[n]  R == RotMat(e.q) IN
          e.a4[n] = SumTo(3, LAMBDA c : R[x[1]][c]*R[x[2]][c]*R[x[3]][c]*R[x[4]][c]))
  [] e.ev = "angle" -> \* angle of chord: 4 asin(d/2), 2 asin(d/2); d=2sin(..): logged in degrees
       Chk("angle", \A i \in 1..Len(e.deg) : e.a4[i] = 2*e.deg[i] /\ e.a2[i] = e.deg[i])
  [] OTHER ->
  LET D == e.dim  lo == e.lo  hi == e.hi  ih == e.ih  p == e.p
      cells == Box(lo,hi)
      SB(d) == SideBox(lo,hi,d)
      S == 1024
      tab == p.tab
      tol == p.tol
      \* symmetric differences come first, plain ones after them
      df == IF "diff" \in DOMAIN e.in THEN [d \in 1..D |-> SubSeq(e.in.diff[d],1,p.depth)] ELSE <<>>
      SymD(d,c) == IF p.depth = 1 THEN << At(e.in.q[1],c) - At(e.in.q[1],Dn(c,d)) - p.tab1[At(e.in.iq[d],c)] >>
                   ELSE TrDiff(e.in.q,tab,e.in.iq,d,c,S)
      PlainD(d,c) == VScale(IF p.depth = 1 THEN 1 ELSE S, VSub(VAt(e.in.q,c), VAt(e.in.q,Dn(c,d))))
  IN Chk("guard", e.g = 1) \cup
  CASE e.ev = "quatdiffs_symm" ->
       Chk("difference", \A d \in 1..D : VWritten(e.out.diff[d], DiffSides(lo,hi,d), LAMBDA c : SymD(d,c), tol))
  [] e.ev = "c_qdiffs" ->
       LET at(k) == (k-1)*p.depth + 1
           sub(f,k) == SubSeq(f, at(k), at(k) + p.depth - 1)
           shown == IF p.visit = 1 THEN cells ELSE {}
       IN Chk("difference", \A d \in 1..D : VWritten(sub(e.out.diff[d],1), DiffSides(lo,hi,d), LAMBDA c : SymD(d,c), tol))
     \cup Chk("plain", \A d \in 1..D : VWritten(sub(e.out.diff[d],2), DiffSides(lo,hi,d), LAMBDA c : PlainD(d,c), 0))
     \cup Chk("cellcopy", \A d \in 1..D : /\ VWritten(sub(e.out.cell,d), shown, LAMBDA c : SymD(d,c), tol)
                                         /\ VWritten(sub(e.out.cell2,d), shown, LAMBDA c : PlainD(d,c), 0))
  [] e.ev = "normquat" ->
       Chk("normalised", \A c \in Dom(e.out.q[1]) :
          LET b == [m \in 1..p.depth |-> At(e.pre.q[m],c)]  o == VAt(e.out.q,c) IN
          IF p.depth = 1 THEN o = VScale(720720,b)
          ELSE LET n == ISqrt(VNorm2(b)) IN \A m \in 1..p.depth : Close(o[m]*n, 720720*b[m], n))
  [] e.ev = "quatdiffs_symm_new" ->
       Chk("difference", \A d \in 1..D : VWritten(e.out.diff[d], DiffSides(lo,hi,d),
            LAMBDA c : TrDiff(e.in.q,tab,e.in.iq,d,c,S), tol+2))
  [] e.ev = "quatgrad_cell_symm" ->
       Chk("gradient", \A d \in 1..D : VWritten([m \in 1..p.depth |-> e.out.grad[m][d]], cells,
            LAMBDA c : VScale(ih[d], SymCell(df,tab,e.in.iq,S,d,c)), tol*ih[d]))
  [] e.ev = "quatgrad_side_symm" ->
       Chk("gradient", \A d,x \in 1..D : VWritten([m \in 1..p.depth |-> e.out.grad[d][m][x]], SB(d),
            LAMBDA c : VScale(ih[x], IF d = x THEN VScale(4,DHere(df,S,d,c)) ELSE SymSideT(df,tab,e.in.iq,S,d,x,c)),
            tol*ih[x]))
  [] e.ev = "quatgrad_side_symm_iso" ->
       Chk("gradient", \A d,x \in 1..D : VWritten([m \in 1..p.depth |-> e.out.grad[d][m][x]], SB(d),
            LAMBDA c : VScale(ih[x], IF d = x THEN SymIsoN(df,tab,e.in.iq,S,d,c)
                                     ELSE VScale(3,SymSideT(df,tab,e.in.iq,S,d,x,c))),
            3*tol*ih[x]))
  [] e.ev = "quat_symm_rotation" ->
       Chk("closest", \A d \in 1..D : \A c \in Dom(e.out.rot[d]) :
          IF c \notin DiffSides(lo,hi,d) THEN At(e.out.rot[d],c) = At(e.pre.rot[d],c)
          ELSE LET a == VAt(e.in.q,c)  b == VAt(e.in.q,Dn(c,d))  k == At(e.out.rot[d],c) IN
               IF p.depth = 1 THEN k \in 1..9 /\ \A j \in 1..9 : Abs(a[1]-b[1]-p.tab1[k]) <= Abs(a[1]-b[1]-p.tab1[j])
               ELSE k \in 1..Len(tab) /\ \A j \in 1..Len(tab) : Closeness(a,b,tab[j]) <= Closeness(a,b,tab[k]))
  \cup Chk("cellcopy", \A n \in {"rotcell"} \cap DOMAIN e.out : \A d \in 1..D : \A c \in Dom(e.out[n][d]) :
          At(e.out[n][d],c) = (IF p.visit = 1 /\ c \in cells THEN At(e.out.rot[d],c) ELSE -77777))
  [] e.ev = "quat_fundamental" ->
       Chk("fundamental", \A c \in Dom(e.out.q[1]) :
          LET b == [m \in 1..p.depth |-> At(e.pre.q[m],c)]  o == VAt(e.out.q,c) IN
          IF c \notin cells THEN VClose(o, VScale(IF p.depth = 1 THEN 1 ELSE S,b), 0)
          ELSE IF p.depth = 1 THEN \E k \in -4..4 : o[1] = b[1] + 64*k /\ \A j \in -4..4 : Abs(o[1]) <= Abs(b[1] + 64*j)
          ELSE LET I == IF p.depth = 4 THEN One4 ELSE One2 IN
               \E r \in Group(p.depth) : /\ VClose(o, RotS(VScale(S,b),r), 3)
                                         /\ \A s \in Group(p.depth) : Closeness(I,b,s) <= Closeness(I,b,r))
  [] e.ev = "correctrhs" ->
       Chk("correction", \A c \in Dom(e.out.rhs[1]) :
          LET pre == [m \in 1..p.depth |-> At(e.pre.rhs[m],c)]  o == VAt(e.out.rhs,c) IN
          IF c \notin cells THEN o = VScale(S,pre)
          ELSE LET q == VAt(e.in.quat,c)
                   n == IF p.depth = 1 THEN 1 ELSE VNorm2(q)
                   v == SymCorr(e.in.ns,e.in.sy,e.in.fc,tab,e.in.iq,ih,S,c)
               IN VClose(VScale(n, VSub(o,VScale(S,pre))), VScale(At(e.in.mob,c), ProjN(q,v)), p.tolc))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
