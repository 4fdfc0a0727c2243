-------------------------------- MODULE AmpeTag --------------------------------
(* Refinement criteria: a cell is tagged when the norm of spacing times         *)
(* gradient, over all components, reaches the threshold of an active criterion. *)
EXTENDS AmpeBase

\* n components of gradients g[k][d] per direction
Jump2(g,h,n,c) == SumTo(n, LAMBDA k : SumD(Len(c), LAMBDA d : Sq(At(g[k][d],c)*h[d])))
Over(g,h,n,t,c) == t >= 0 /\ Jump2(g,h,n,c) >= t*t
\* twice the central difference of a periodic field, and the criterion on it (threshold t/2)
Wrap(c,lo,hi) == [d \in DOMAIN c |-> lo[d] + ((c[d]-lo[d]) % (hi[d]-lo[d]+1))]
CD2(v,lo,hi,c,d) == At(v, Wrap(Up(c,d),lo,hi)) - At(v, Wrap(Dn(c,d),lo,hi))
OverField(v,n,lo,hi,t2,c) == t2 >= 0 /\ SumTo(n, LAMBDA k : SumD(Len(c), LAMBDA d : Sq(CD2(v[k],lo,hi,c,d)))) >= t2*t2
=============================================================================
