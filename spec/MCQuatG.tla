------------------------------ MODULE MCQuatG -------------------------------
(* exhaustive group table: closure and inverses of the cubic operations *)
EXTENDS AmpeQuat
VARIABLES r, s
Init == r \in Cubic /\ s \in Cubic
Next == UNCHANGED <<r,s>>
Spec == Init /\ [][Next]_<<r,s>>
Closed == LET p == Mul(r,s) IN Rep(p) \in Cubic /\ \A i \in 1..4 : p[i]*p[i]*VNorm2(Rep(p)) = (IF p[i] = 0 THEN 0 ELSE VNorm2(p))
Inverses == Mul(r,Conj(r)) = <<VNorm2(r),0,0,0>> /\ Conj(r) \in Cubic
=============================================================================
