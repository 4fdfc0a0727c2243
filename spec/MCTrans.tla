------------------------------ MODULE MCTrans ------------------------------
(* Laws of the transfers themselves, for every ratio and every cell: the cells under the coarse cells of a box are a partition of
   the refined box; averaging the linear interpolation of a linear field gives the field back; constants are preserved; the
   interpolation is linear in position, across negative indices. *)
EXTENDS AmpeTrans
CONSTANTS R, N
VARIABLE st
Ratios == (1..R) \X (1..R)
Lin(c,a) == a[1]*c[1] + a[2]*c[2] + a[3]
Init == st \in { <<ra,c,a>> : ra \in Ratios, c \in (-N..N) \X (-N..N), a \in (-1..2) \X (-1..1) \X {0,3} }
Next == UNCHANGED st
ra == st[1]
c == st[2]
a == st[3]
Full(f) == Linear(f,ra,LAMBDA x : Lin(x,a))
Scale == 4*ra[1]*ra[2]
Inv ==
  /\ \A x \in Under(c,ra) : Over(x,ra) = c
  /\ Cardinality(Under(c,ra)) = Volume(ra)
  /\ \A x \in Under(c,ra) : \A e \in {1,2} : Over([x EXCEPT ![e] = @ + ra[e]],ra) = [c EXCEPT ![e] = @ + 1]
  \* value of a linear field at the centre of the fine cell: position (2 f + 1 - ra)/(2 ra) in coarse units
  /\ \A x \in Under(c,ra) : Full(x) = 2*ra[2]*a[1]*(2*x[1]+1-ra[1]) + 2*ra[1]*a[2]*(2*x[2]+1-ra[2]) + Scale*a[3]
  /\ SumUnder(c,ra,Full) = Scale*Volume(ra)*Lin(c,a)
=============================================================================
