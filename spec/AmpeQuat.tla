------------------------------ MODULE AmpeQuat ------------------------------
(* Orientations and their crystal symmetry.  Quaternions are integer          *)
(* 4-vectors, complex orientations integer 2-vectors; a symmetry operation is *)
(* an integer vector r standing for r/|r|.                                    *)
EXTENDS AmpeBase

QMul(a,b) == <<
  a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
  a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
  a[1]*b[3] + a[3]*b[1] + a[4]*b[2] - a[2]*b[4],
  a[1]*b[4] + a[4]*b[1] + a[2]*b[3] - a[3]*b[2] >>
CMul(a,b) == << a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1] >>
QConj(a) == << a[1], -a[2], -a[3], -a[4] >>
CConj(a) == << a[1], -a[2] >>
Mul(a,b) == IF Len(a) = 4 THEN QMul(a,b) ELSE CMul(a,b)
Conj(a) == IF Len(a) = 4 THEN QConj(a) ELSE CConj(a)
VDot(a,b) == SumM(Len(a), LAMBDA i : a[i]*b[i])
VNorm2(a) == VDot(a,a)
VScale(k,a) == [i \in 1..Len(a) |-> k*a[i]]
VSub(a,b) == [i \in 1..Len(a) |-> a[i]-b[i]]
VAdd(a,b) == [i \in 1..Len(a) |-> a[i]+b[i]]
VNeg(a) == [i \in 1..Len(a) |-> -a[i]]

One4 == <<1,0,0,0>>
One2 == <<1,0>>
\* the cubic group as unit quaternions (with both signs): integer representatives
T == {-1,0,1}
NZ(v) == Cardinality({i \in 1..4 : v[i] # 0})
Cubic == { v \in T \X T \X T \X T : NZ(v) \in {1,2,4} }
\* the 4-fold rotations as unit complex numbers
Square == { <<1,0>>, <<0,1>>, <<-1,0>>, <<0,-1>> }
Group(n) == IF n = 4 THEN Cubic ELSE Square

\* integer representative of the direction of v (v has entries 0,+-c)
Rep(v) == [i \in 1..Len(v) |-> Sgn(v[i])]

\* |q1/|q1| - q2 r/|q2 r||^2 is decreasing in q1.(q2 r)/|r| : signed square, times 4
Closeness(q1,q2,r) == LET d == VDot(q1, Mul(q2,r)) IN Sgn(d)*d*d*(4 \div VNorm2(r))

\* rotation matrix of a quaternion (rows), times |q|^2
RotMat(q) == <<
 << q[1]*q[1]+q[2]*q[2]-q[3]*q[3]-q[4]*q[4], 2*(q[2]*q[3]-q[1]*q[4]), 2*(q[2]*q[4]+q[1]*q[3]) >>,
 << 2*(q[2]*q[3]+q[1]*q[4]), q[1]*q[1]-q[2]*q[2]+q[3]*q[3]-q[4]*q[4], 2*(q[3]*q[4]-q[1]*q[2]) >>,
 << 2*(q[2]*q[4]-q[1]*q[3]), 2*(q[3]*q[4]+q[1]*q[2]), q[1]*q[1]-q[2]*q[2]-q[3]*q[3]+q[4]*q[4] >> >>
MatMul(A,B) == [i \in 1..3 |-> [j \in 1..3 |-> SumTo(3, LAMBDA k : A[i][k]*B[k][j])]]
Transpose(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
Unit(n,m) == [i \in 1..n |-> IF i = m THEN 1 ELSE 0]
\* 2 * derivative of the (quadratic) rotation matrix along unit m, exact central difference
DRot2(q,m) == LET A == RotMat(VAdd(q,Unit(4,m)))  B == RotMat(VSub(q,Unit(4,m)))
              IN [i \in 1..3 |-> [j \in 1..3 |-> A[i][j]-B[i][j]]]
CRot(q) == << <<q[1],-q[2],0>>, <<q[2],q[1],0>>, <<0,0,1>> >>

\* angles in units u with quarter turn Q: the representative of a in [-2Q, 2Q]
Wrap(a,Q) == IF a >= 0 THEN ((a + 2*Q) % (4*Q)) - 2*Q ELSE -(((2*Q - a) % (4*Q)) - 2*Q)

(* ---- transported differences on the grid, in fixed point ----              *)
\* v r/|r| for a vector v already scaled (exact when |r|^2 is 1 or 4 and v is a multiple of 2)
RotS(v,r) ==
  LET p == Mul(v,r)  n == VNorm2(r) IN
  IF n = 1 THEN p ELSE IF n = 4 THEN [i \in 1..4 |-> p[i] \div 2]
  ELSE [i \in 1..Len(p) |-> (p[i]*11585) \div 16384]

VAt(f,c) == [m \in 1..Len(f) |-> At(f[m],c)]
\* the operation on side c of direction d, and its inverse, from the logged index and table
OpR(tab,iq,d,c) == tab[At(iq[d],c)]
Fwd(tab,iq,d,c,v) == IF Len(v) = 1 THEN v ELSE RotS(v, OpR(tab,iq,d,c))
Bwd(tab,iq,d,c,v) == IF Len(v) = 1 THEN v ELSE RotS(v, Conj(OpR(tab,iq,d,c)))

\* symmetric difference across side c: q(c) - q(c-e_d) transported to c
TrDiff(q,tab,iq,d,c,S) == VSub(VScale(S,VAt(q,c)), Fwd(tab,iq,d,c,VScale(S,VAt(q,Dn(c,d)))))
\* the difference on side c lives in the frame of cell c; seen from cell c-e_d it is transported back
DHere(df,S,d,c) == VScale(S,VAt(df[d],c))
DBack(df,tab,iq,S,d,c) == Bwd(tab,iq,d,c,VScale(S,VAt(df[d],c)))
\* 2S * cell gradient / ih
SymCell(df,tab,iq,S,d,c) == VAdd(DBack(df,tab,iq,S,d,Up(c,d)), DHere(df,S,d,c))
\* 4S * transverse (e) gradient / ih on side c of normal d: both adjacent cells' differences in the frame of cell c
SymSideT(df,tab,iq,S,d,e,c) ==
  LET m == Dn(c,d) IN
  VAdd( VAdd(DBack(df,tab,iq,S,e,Up(c,e)), DHere(df,S,e,c)),
        Fwd(tab,iq,d,c, VAdd(DBack(df,tab,iq,S,e,Up(m,e)), DHere(df,S,e,m))) )
\* 12S * isotropic normal gradient / ih (2D): the neighbouring sides' differences transported along e
SymIsoN(df,tab,iq,S,d,c) ==
  LET e == 3-d  a == Dn(c,e)  b == Up(c,e) IN
  VAdd( VScale(10,DHere(df,S,d,c)),
        VAdd( Fwd(tab,iq,e,c, VScale(S,VAt(df[d],a))), Bwd(tab,iq,e,b, VScale(S,VAt(df[d],b))) ) )

\* correction of the orientation equation: sum over sides of face coefficient times
\* (plain - transported) difference, projected orthogonally to q; times S*|q|^2
SymCorr(ns,sy,fc,tab,iq,ih,S,c) ==
  LET D == Len(ih)
      term(d) == LET u == Up(c,d)
                     a == VSub(VScale(S,VAt(ns[d],u)), DBack(sy,tab,iq,S,d,u))
                     b == VSub(VScale(S,VAt(ns[d],c)), DHere(sy,S,d,c))
                 IN VScale(ih[d]*ih[d], VSub(VScale(At(fc[d],u),a), VScale(At(fc[d],c),b)))
  IN IF D = 2 THEN VAdd(term(1),term(2)) ELSE VAdd(VAdd(term(1),term(2)),term(3))
\* |q|^2 v - (q.v) q
ProjN(q,v) == IF Len(q) = 1 THEN v ELSE VSub(VScale(VNorm2(q),v), VScale(VDot(q,v),q))
=============================================================================
