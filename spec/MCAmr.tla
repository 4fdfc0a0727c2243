--------------------------------- MODULE MCAmr ---------------------------------
(* Composite weights of every nesting of up to three levels of a small grid:    *)
(* each point of the domain is counted once, by the finest cell there, so that  *)
(* integrals of a field do not change when the field is refined by injection.   *)
EXTENDS AmpeAmr
CONSTANT M
VARIABLES lev

Rects(lo,hi) == { [lo |-> <<a,b>>, hi |-> <<p,q>>] : a \in lo[1]..hi[1], p \in lo[1]..hi[1], b \in lo[2]..hi[2], q \in lo[2]..hi[2] } 
Proper(S) == { b \in S : b.lo[1] <= b.hi[1] /\ b.lo[2] <= b.hi[2] }
Refine(b,r) == [lo |-> [d \in 1..2 |-> b.lo[d]*r[d]], hi |-> [d \in 1..2 |-> b.hi[d]*r[d] + r[d] - 1]]
Init == \E o \in {-1,0} : lev = <<[r |-> <<1,1>>, boxes |-> <<[lo |-> <<o,o>>, hi |-> <<o+M-1,o>>], [lo |-> <<o,o+1>>, hi |-> <<o+M-1,o+M-2>>]>>]>>
Next == /\ Len(lev) < 3
        /\ \E r \in {<<2,2>>, <<2,1>>, <<1,3>>} : \E i \in DOMAIN lev[Len(lev)].boxes :
             LET t == lev[Len(lev)].boxes[i] IN
             \E b \in Proper(Rects(t.lo, [d \in 1..2 |-> Min2(t.hi[d], t.lo[d]+1)])) : lev' = Append(lev, [r |-> r, boxes |-> <<Refine(b,r)>>])
Spec == Init /\ [][Next]_lev

RECURSIVE Under(_,_)
\* the coarse cell (level 1) under a cell of level l
Under(l,c) == IF l = 1 THEN c ELSE Under(l-1, CoarseOf(lev,l,c))
F(c) == 3*c[1] - 2*c[2] + 7
Dm == LevelCells(lev,1)
Unit == RProd(lev,Len(lev),2)
Volume == SumLevels(lev, LAMBDA l,c : Weight(lev,l,c)) = Cardinality(Dm)*Unit
Refinement == SumLevels(lev, LAMBDA l,c : Weight(lev,l,c)*F(Under(l,c))) = Unit*SumOn(Dm, F)
\* every coarse cell is represented by exactly its own volume, and a covered cell has none
Once == \A c \in Dm : SumTo(Len(lev), LAMBDA l : SumOn({x \in LevelCells(lev,l) : Under(l,x) = c}, LAMBDA x : Weight(lev,l,x))) = Unit
\* the middle of the domain is symmetric and grows with the fraction
Mid == lev[1].boxes[1].lo[1] = 0 =>
  \A l \in 1..Len(lev) : \A c \in LevelCells(lev,l) : \A f \in {1,4,8,15} :
    LET n == <<M,M-1>>  m(x) == [d \in 1..2 |-> n[d]*RZero(lev,l,d) - 1 - x[d]]
    IN Middle(lev,l,n,<<f,16>>,c) = Middle(lev,l,n,<<f,16>>,m(c)) /\ (Middle(lev,l,n,<<f,f>>,c) = 1 => Middle(lev,l,n,<<f+1,f+1>>,c) = 1) /\ Middle(lev,l,n,<<16,16>>,c) = 1
=============================================================================
