------------------------------- MODULE MCQuat -------------------------------
(* The symmetry group laws the orientation code relies on, and the law that   *)
(* makes its early exit sound: a state machine that applies symmetry          *)
(* operations one after another to an orientation (any history of             *)
(* re-orientations) keeps it in the orbit, and the misorientation found       *)
(* against a reference does not depend on the history.                        *)
EXTENDS AmpeQuat
CONSTANTS B
VARIABLES ref, q, steps
\* keep representatives primitive: divide by the norm of r when it is 2
Norm2Int(p, r) == IF VNorm2(r) = 4 THEN [i \in 1..4 |-> p[i] \div 2] ELSE p
GI == { r \in Cubic : VNorm2(r) \in {1,4} }
Qs == { v \in (0..B) \X (0..B) \X (0..B) \X (0..B) : v # <<0,0,0,0>> }
Init == ref \in Qs /\ q = VScale(2,ref) /\ steps = 0
Next == /\ steps < 2
        /\ \E r \in {<<0,1,0,0>>, <<1,1,1,1>>, <<0,0,-1,0>>} :
             q' = (IF VNorm2(r) = 4 THEN [i \in 1..4 |-> Mul(q,r)[i] \div 2] ELSE Mul(q,r))
        /\ steps' = steps + 1 /\ UNCHANGED ref
Spec == Init /\ [][Next]_<<ref,q,steps>>
Best(p) == Max({ Closeness(ref,p,r) : r \in Cubic })
HistoryIndependent == VNorm2(q) = 4*VNorm2(ref) => Best(q) = 4*VNorm2(ref)*VNorm2(ref)*4
\* group closure, inverses, rotation matrices
GroupLaws == steps = 0 =>
  /\ Cardinality(Cubic) = 48
  /\ LET R == RotMat(ref)  n == VNorm2(ref) IN
       MatMul(R,Transpose(R)) = [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN n*n ELSE 0]]
  /\ RotMat(VNeg(ref)) = RotMat(ref)
\* uniqueness behind the early exit: two distinct operations cannot both be within the exit distance
\*   dsq <= (2 sin(pi/16))^2  <=>  cos >= cos(pi/8)  <=>  2 c^2 >= 1 + 1/sqrt2, c = dot/(|q1||q2||r|)
Within(q2,r) == LET d == VDot(ref,Mul(q2,r)) IN
   /\ d > 0
   /\ LET X == 2*d*d - VNorm2(ref)*VNorm2(q2)*VNorm2(r)   \* X >= n/sqrt2
          n == VNorm2(ref)*VNorm2(q2)*VNorm2(r)
      IN X > 0 /\ 2*X*X > n*n
Unique == steps = 0 => \A q2 \in { v \in (0..1) \X (-1..1) \X (-1..1) \X (0..1) : v # <<0,0,0,0>> } :
   \A r,s \in Cubic : (Within(q2,r) /\ Within(q2,s)) => r = s
Rmul == steps = 0 => \A r \in Cubic : RotMat(Mul(ref,r)) = MatMul(RotMat(ref),RotMat(r))
=============================================================================
