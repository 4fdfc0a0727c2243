-------------------------------- MODULE MCGrain --------------------------------
(* Numbering by repeated lowering to the lowest neighbour, on a 2D domain of two  *)
(* levels cut into patches.  In each sweep the levels go one after the other:     *)
(* all patches of a level fill their ghosts, then lower their own cells in place, *)
(* in any order of the patches; then the cells below are set to the lowest number *)
(* above them.  Sweeps end when nothing has changed.  Whatever the grains, the    *)
(* cut and the order of patches, what is left are the grains of AmpeGrain.        *)
EXTENDS AmpeGrain
CONSTANT NX, NY, FX, FY, PER
VARIABLES cut, mask, g, gh, u, done, changed, k, end
vars == <<cut,mask,g,gh,u,done,changed,k,end>>

n == <<NX,NY>>
per == <<PER,PER>>
lev == << [r |-> <<1,1>>, boxes |-> <<[lo |-> <<0,0>>, hi |-> <<NX-1,NY-1>>]>>],
          [r |-> <<2,2>>, boxes |-> <<[lo |-> <<2*FX,2*FY>>, hi |-> <<2*FX+1,2*FY+1>>]>>] >>
All(v) == LevelCells(lev,v)
\* composite cells
Leaves == { <<1,c>> : c \in { x \in All(1) : ~Covered(lev,1,x) } } \cup { <<2,c>> : c \in All(2) }
\* patches: the coarse level cut along one line, the fine level whole
Half(c) == IF c[1] < cut THEN 1 ELSE 2
Patches(v) == IF v = 1 THEN { Half(c) : c \in All(1) } ELSE {1}
PCells(v,p) == IF v = 1 THEN { c \in All(1) : Half(c) = p } ELSE All(2)
First(v,c) == IF v = 1 THEN c[1] + NX*c[2] ELSE NX*NY + c[1] + 2*NX*c[2]
DownSet(w) == [c \in All(1) |-> IF Covered(lev,1,c) THEN Lowest({ w[<<2,x>>] : x \in Above(lev,1,c) } \ {-1}) ELSE w[<<1,c>>]]
Down(w) == [x \in DOMAIN w |-> IF x[1] = 1 THEN DownSet(w)[x[2]] ELSE w[x]]
Cells == { <<1,c>> : c \in All(1) } \cup { <<2,c>> : c \in All(2) }
\* ghost of the fine level: the coarse cell there (-1 outside of the domain)
Ghost(v,c,d,s) ==
  LET b == Nbr(lev,n,per,v,c,d,s) IN
  IF b = <<>> THEN -1 ELSE IF b \in All(v) THEN g[<<v,b>>] ELSE g[<<1,CoarseOf(lev,2,b)>>]

Init == /\ cut \in 0..(NX-1)
        /\ mask \in SUBSET Leaves
        /\ g = Down([x \in Cells |-> IF x \in mask THEN First(x[1],x[2]) ELSE -1])
        /\ gh = <<>> /\ u = 1 /\ done = {} /\ changed = FALSE /\ k = 0 /\ end = FALSE

\* cells of a patch in storage order
Order(S) == SetToSortSeq(S, LAMBDA a,b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
Neigh(v,c,w) == { LET b == Nbr(lev,n,per,v,c,d,s) IN IF b # <<>> /\ <<v,b>> \in DOMAIN w THEN w[<<v,b>>] ELSE gh[<<c,d,s>>] : d \in 1..2, s \in {-1,1} }
Lowered(v,c,w) ==
  LET m == w[<<v,c>>] IN
  IF m = -1 \/ Covered(lev,v,c) THEN w
  ELSE LET L == Lowest((Neigh(v,c,w) \ {-1}) \cup {m}) IN [w EXCEPT ![<<v,c>>] = L]
Fill == /\ ~end /\ gh = <<>>
        /\ gh' = [x \in All(u) \X (1..2) \X {-1,1} |-> Ghost(u,x[1],x[2],x[3])]
        /\ UNCHANGED <<cut,mask,g,u,done,changed,k,end>>
Sweep(p) ==
  LET own == [x \in { <<u,c>> : c \in PCells(u,p) } |-> g[x]]
      res == FoldLeft(LAMBDA w,c : Lowered(u,c,w), own, Order(PCells(u,p)))
      g1 == res @@ g
      ch == changed \/ res # own
      last == done \cup {p} = Patches(u)
  IN /\ ~end /\ gh # <<>> /\ p \in Patches(u) \ done
     /\ g' = IF last /\ u = 2 THEN Down(g1) ELSE g1
     /\ IF ~last THEN done' = done \cup {p} /\ changed' = ch /\ UNCHANGED <<gh,u,k,end>>
        ELSE /\ done' = {} /\ gh' = <<>>
             /\ IF u = 1 THEN u' = 2 /\ changed' = ch /\ UNCHANGED <<k,end>>
                ELSE u' = 1 /\ changed' = FALSE /\ k' = k+1 /\ end' = ~ch
     /\ UNCHANGED <<cut,mask>>
Next == Fill \/ \E p \in 1..2 : Sweep(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* renumbered 0..count-1
Used == { g[x] : x \in mask }
Rank(v) == Cardinality({ w \in Used : w < v })
Grains == end => Numbering(lev,n,per,mask,LAMBDA x : Rank(g[x]),Cardinality(Used)) = {}
Outside == \A x \in Leaves : x \notin mask => g[x] = -1
Showing == end => \A c \in All(1) : Covered(lev,1,c) => g[<<1,c>>] = Shown(lev,1,c,LAMBDA v,x : g[<<v,x>>])
Soon == k <= 4*2*NX
Ends == <>end
=============================================================================
