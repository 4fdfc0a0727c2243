------------------------------- MODULE AmpeGrain -------------------------------
(* Grains of a composite grid: the cells that no finer level covers and where   *)
(* the phase reaches a threshold, joined through faces.                         *)
EXTENDS AmpeAmr

\* the neighbour of cell c of level u in direction d (k = -1 or 1): <<>> across a wall
NSize(lev,n,u,d) == n[d]*RZero(lev,u,d)
Nbr(lev,n,per,u,c,d,k) ==
  LET x == c[d] + k  w == NSize(lev,n,u,d) IN
  IF x >= 0 /\ x < w THEN [c EXCEPT ![d] = x] ELSE IF per[d] = 1 THEN [c EXCEPT ![d] = x % w] ELSE <<>>
\* cells of level u+1 on top of cell b of level u, and those along its face on side k (-1 or 1) of direction d
Above(lev,u,b) == LET r == lev[u+1].r IN Box([e \in DOMAIN b |-> b[e]*r[e]], [e \in DOMAIN b |-> b[e]*r[e] + r[e]-1])
Along(lev,u,b,d,k) == LET r == lev[u+1].r IN { x \in Above(lev,u,b) : x[d] = (IF k = -1 THEN b[d]*r[d] ELSE b[d]*r[d] + r[d]-1) }

\* all cells of finer levels on top of cell b of level u: <<level, cell>>
RECURSIVE Over(_,_,_)
Over(lev,u,b) == IF ~Covered(lev,u,b) THEN {} ELSE { <<u+1,x>> : x \in Above(lev,u,b) } \cup UNION { Over(lev,u+1,x) : x \in Above(lev,u,b) }

\* cells above the threshold that are not covered: <<level, cell>>
GrainCells(lev,In(_,_)) == UNION { { <<u,c>> : c \in { x \in LevelCells(lev,u) : ~Covered(lev,u,x) /\ In(u,x) } } : u \in 1..Len(lev) }

\* face neighbours of a grain cell on its own level or the next finer one
Touch(lev,n,per,G,g) ==
  LET u == g[1] c == g[2] IN
  UNION { LET b == Nbr(lev,n,per,u,c,d,k) IN
          IF b = <<>> THEN {} ELSE { <<u,b>> } \cup (IF Covered(lev,u,b) THEN { <<u+1,x>> : x \in Along(lev,u,b,d,0-k) } ELSE {}) : d \in DOMAIN c, k \in {-1,1} } \cap G
\* same, with all cells on top of a covered neighbour
Near(lev,n,per,G,g) ==
  LET u == g[1] c == g[2] IN
  UNION { LET b == Nbr(lev,n,per,u,c,d,k) IN
          IF b = <<>> THEN {} ELSE { <<u,b>> } \cup (IF Covered(lev,u,b) THEN Over(lev,u,b) ELSE {}) : d \in DOMAIN c, k \in {-1,1} } \cap G

\* what can be reached from S through a symmetric relation
RECURSIVE Reach(_,_,_)
Reach(S, F, N) == IF F = {} THEN S ELSE LET X == UNION { N[g] : g \in F } \ S IN Reach(S \cup X, X, N)

\* number(g): the grain a cell belongs to.  Every grain is one connected set of cells
Numbering(lev,n,per,G,Number(_),count) ==
  LET near == [g \in G |-> Near(lev,n,per,G,g)]
      nb == [g \in G |-> { x \in near[g] \cup { x \in G : g \in near[x] } : Number(x) = Number(g) }]
      cls(k) == { g \in G : Number(g) = k }
  IN  Chk("neighbours of different grains", \A g \in G : \A x \in Touch(lev,n,per,G,g) : Number(x) = Number(g))
      \cup Chk("numbers", { Number(g) : g \in G } = 0..(count-1))
      \cup Chk("grain in pieces", \A k \in 0..(count-1) : LET C == cls(k) IN C = {} \/ LET g == CHOOSE x \in C : TRUE IN Reach({g}, {g}, nb) = C)

\* number shown by a covered cell: the lowest of the cells above it
Lowest(V) == IF V = {} THEN -1 ELSE CHOOSE v \in V : \A w \in V : v <= w
Shown(lev,u,c,Number(_,_)) == Lowest({ Number(u+1,x) : x \in Above(lev,u,c) } \ {-1})

\* sums over a grain
GrainSum(lev,C,F(_,_)) == SumOn(C, LAMBDA g : Weight(lev,g[1],g[2])*F(g[1],g[2]))

\* growing the grains of a uniform grid, one layer of cells at a time
RECURSIVE Layers(_,_,_,_)
Layers(S,last,k,N) == IF last = {} THEN [c \in {} |-> 0] ELSE LET X == UNION { N[c] : c \in last } \ S IN [c \in last |-> k] @@ Layers(S \cup X, X, k+1, N)
Grown(lev,n,per,In(_),before,after) ==
  LET all == LevelCells(lev,1)
      N == [c \in all |-> { Nbr(lev,n,per,1,c,d,k) : d \in DOMAIN c, k \in {-1,1} } \ {<<>>}]
      S == { c \in all : In(c) }
      far == Layers(S,S,0,N)
  IN \A c \in all :
       IF S = {} \/ c \in S THEN At(after,c) = At(before,c)
       ELSE \E x \in N[c] : far[x] = far[c] - 1 /\ At(after,x) = At(after,c)
=============================================================================
