------------------------------ MODULE AmpeBase ------------------------------
(* Index boxes, fields on cells and sides, and finite sums over them: the    *)
(* vocabulary all AMPE specifications share.  Everything is written once for *)
(* any dimension (2 or 3): an index is a tuple, a direction is 1..D.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a,b) == IF a < b THEN b ELSE a
Min2(a,b) == IF a < b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sq(x) == x * x

\* floor / mathematical modulus (TLC's \div and % already are)
FloorDiv(a,b) == a \div b

Dirs(lo) == 1..Len(lo)

Box(lo,hi) ==
  IF Len(lo) = 2 THEN { <<i,j>> : i \in lo[1]..hi[1], j \in lo[2]..hi[2] }
  ELSE IF Len(lo) = 3 THEN { <<i,j,k>> : i \in lo[1]..hi[1], j \in lo[2]..hi[2], k \in lo[3]..hi[3] }
  ELSE { <<i>> : i \in lo[1]..hi[1] }

InBox(c,lo,hi) == \A d \in 1..Len(lo) : lo[d] <= c[d] /\ c[d] <= hi[d]

\* box grown by n cells on every side
GrowLo(lo,n) == [d \in 1..Len(lo) |-> lo[d]-n]
GrowHi(hi,n) == [d \in 1..Len(hi) |-> hi[d]+n]
GrowBut(lo,n,d) == [e \in 1..Len(lo) |-> IF e = d THEN lo[e] ELSE lo[e]+n]

\* sides normal to direction d of the cells of a box: side c is between c-e_d and c
SideHi(hi,d) == [hi EXCEPT ![d] = @ + 1]
SideBox(lo,hi,d) == Box(lo, SideHi(hi,d))

Sh(c,d,k) == [c EXCEPT ![d] = @ + k]
Up(c,d) == [c EXCEPT ![d] = @ + 1]
Dn(c,d) == [c EXCEPT ![d] = @ - 1]

\* fields: records [lo,hi,s,b,v]; v is the column-major data
At(f,c) ==
  LET s == f.s IN
  IF Len(s) = 2 THEN f.v[f.b + c[1]*s[1] + c[2]*s[2]]
  ELSE IF Len(s) = 3 THEN f.v[f.b + c[1]*s[1] + c[2]*s[2] + c[3]*s[3]]
  ELSE f.v[f.b + c[1]*s[1]]
Dom(f) == Box(f.lo, f.hi)

SumOn(S, F(_)) == MapThenSumSet(F, S)
SumTo(n, F(_)) == MapThenSumSet(F, 1..n)
SumD(D, F(_)) == IF D = 2 THEN F(1) + F(2) ELSE IF D = 3 THEN F(1) + F(2) + F(3) ELSE SumTo(D, F)
SumM(n, F(_)) == CASE n = 1 -> F(1) [] n = 2 -> F(1) + F(2) [] n = 3 -> F(1) + F(2) + F(3)
                   [] n = 4 -> F(1) + F(2) + F(3) + F(4) [] OTHER -> SumTo(n, F)
RECURSIVE Pow(_,_)
Pow(x,n) == IF n = 0 THEN 1 ELSE x * Pow(x,n-1)

\* |a - b| <= t
Close(a,b,t) == a < 1073741820 /\ a - b <= t /\ b - a <= t

\* a labelled obligation: {} when it holds, {label} otherwise
Chk(label, cond) == IF cond THEN {} ELSE {label}

(* The obligation on a kernel output `out` whose contents before the call    *)
(* were `pre`: inside the written set W it has the specified value, outside  *)
(* it is untouched.                                                          *)
Written(out, pre, W, F(_)) ==
  \A c \in Dom(out) : At(out,c) = (IF c \in W THEN F(c) ELSE At(pre,c))
\* same, when the untouched part was logged as a constant filler
WrittenF(out, fill, W, F(_)) ==
  \A c \in Dom(out) : At(out,c) = (IF c \in W THEN F(c) ELSE fill)
=============================================================================
