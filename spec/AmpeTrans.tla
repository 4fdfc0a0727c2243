------------------------------ MODULE AmpeTrans ------------------------------
(* Data moved between levels: the cells of a finer level under a coarse cell, averages and minima over them, and linear
   interpolation from the cells around.  ra: refinement ratio per direction. *)
EXTENDS AmpeQuat

Under(c,ra) == Box([d \in DOMAIN c |-> c[d]*ra[d]], [d \in DOMAIN c |-> c[d]*ra[d] + ra[d] - 1])
Over(f,ra) == [d \in DOMAIN f |-> f[d] \div ra[d]]
Volume(ra) == IF Len(ra) = 2 THEN ra[1]*ra[2] ELSE ra[1]*ra[2]*ra[3]

(* the least of the marks of the cells under c that are not negative; -1 if all are *)
Least(c,ra,V(_)) == LET s == { V(x) : x \in Under(c,ra) } \cap Nat IN IF s = {} THEN -1 ELSE CHOOSE m \in s : \A k \in s : m <= k

SumUnder(c,ra,V(_)) == MapThenSumSet(V, Under(c,ra))

(* linear interpolation: the centre of fine cell f lies between the centres of the coarse cells lower and lower+1, at
   Num2/(2 ra) of the way *)
Off2(f,ra,d) == 2*(f[d] % ra[d]) + 1 - ra[d]
Lower(f,ra,d) == IF Off2(f,ra,d) < 0 THEN f[d] \div ra[d] - 1 ELSE f[d] \div ra[d]
Num2(f,ra,d) == IF Off2(f,ra,d) < 0 THEN Off2(f,ra,d) + 2*ra[d] ELSE Off2(f,ra,d)
W2(f,ra,d,k) == IF k = 0 THEN 2*ra[d] - Num2(f,ra,d) ELSE Num2(f,ra,d)
Corners(D) == IF D = 2 THEN Box(<<0,0>>,<<1,1>>) ELSE Box(<<0,0,0>>,<<1,1,1>>)
(* times the product of 2 ra over the directions; weights of zero leave their cell out *)
Linear(f,ra,V(_)) ==
  LET D == Len(f)
      wt(k) == IF D = 2 THEN W2(f,ra,1,k[1])*W2(f,ra,2,k[2]) ELSE W2(f,ra,1,k[1])*W2(f,ra,2,k[2])*W2(f,ra,3,k[3])
  IN SumOn({ k \in Corners(D) : wt(k) # 0 }, LAMBDA k : wt(k)*V([d \in 1..D |-> Lower(f,ra,d) + k[d]]))

(* an orientation along s: o (in 1/q) has unit length and its direction *)
Along(o,s,q) ==
  LET n == Len(o)
      t(i,j) == Abs(s[i]) + Abs(s[j])
  IN /\ \A i, j \in 1..n : i < j => Abs(o[i]*s[j] - o[j]*s[i]) <= t(i,j)
     /\ \E i \in 1..n : s[i] # 0
     /\ \A i \in 1..n : o[i]*Sgn(s[i]) >= 0 \/ Abs(o[i]) <= 1
     /\ Abs(SumM(n, LAMBDA i : o[i]*o[i]) - q*q) <= 4*q
(* an orientation seen from a reference: of its symmetric equivalents the one close to it.  Orientations are unit vectors
   in 1/1024, compared in 1/128; equivalents are unique where the two are within 20 degrees or so. *)
Coarser(v) == [i \in DOMAIN v |-> (v[i] + 4) \div 8]
NearEnough(n) == IF n = 4 THEN 920000000 ELSE 600000000
Seen(ref,v) ==
  LET a == Coarser(ref)
      b == Coarser(v)
      g == { r \in Group(Len(v)) : Closeness(a,b,r) >= NearEnough(Len(v)) }
      r == CHOOSE x \in g : TRUE
      m == Mul(v,r)
      u == VNorm2(r)
  IN IF Closeness(a,b,IF Len(v) = 4 THEN One4 ELSE One2) >= NearEnough(Len(v)) THEN v
     ELSE IF g = {} THEN [i \in DOMAIN v |-> 0]
     ELSE [i \in DOMAIN v |-> IF u = 1 THEN m[i] ELSE IF u = 4 THEN m[i] \div 2 ELSE (m[i]*724) \div 1024]
(* as Along, for directions known to a few of their units *)
Roughly(o,s,q,t) ==
  LET n == Len(o) IN
  /\ \A i, j \in 1..n : i < j => Abs(o[i]*s[j] - o[j]*s[i]) <= t*(Abs(s[i]) + Abs(s[j]) + SumM(n, LAMBDA k : Abs(s[k])))
  /\ \E i \in 1..n : s[i] # 0
  /\ \A i \in 1..n : o[i]*Sgn(s[i]) >= 0 \/ Abs(o[i]) <= 3
  /\ Abs(SumM(n, LAMBDA i : o[i]*o[i]) - q*q) <= 4*q
(* a box of a union of boxes *)
InSome(c,bs) == \E k \in 1..Len(bs) : InBox(c,bs[k].lo,bs[k].hi)
=============================================================================
