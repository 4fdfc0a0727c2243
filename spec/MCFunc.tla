------------------------------- MODULE MCFunc -------------------------------
(* Design-level laws of the interpolation / tilting functions, checked for    *)
(* every grid argument: the functions' derivatives are their derivatives (by  *)
(* a difference formula exact on these polynomials), they are monotone        *)
(* partitions of unity, they share their symmetries.                          *)
EXTENDS AmpeFunc
CONSTANTS NN
VARIABLES k, a, b
N == NN
Init == k \in (-N \div 2)..(2*N) /\ a \in -2..(N+2) /\ b \in -2..(N+2)
Next == UNCHANGED <<k,a,b>>
Spec == Init /\ [][Next]_<<k,a,b>>

\* 7-point derivative, exact up to degree 6 (times 60)
D7(G(_)) == -G(-3) + 9*G(-2) - 45*G(-1) + 45*G(1) - 9*G(2) + G(3)

TwoPhase ==
  \A t \in {"q","p","h","w","l","3","c"} :
     /\ t \in {"p","h","l"} => /\ H5(t,0,N) = 0 /\ H5(t,N,N) = N*N*N*N*N
                               /\ (k < 2*N => H5(t,k,N) <= H5(t,k+1,N))
                               \* h(1-phi) = 1 - h(phi)
                               /\ H5(t,N-k,N) = N*N*N*N*N - H5(t,k,N)
     /\ (3 <= k /\ k <= N-3) => D7(LAMBDA s : H5(t,k+s,N)) = 60*H4d(t,k,N)
     /\ (k < -3 \/ (t \in {"p","h","l"} /\ k > N+3)) => D7(LAMBDA s : H5(t,k+s,N)) = 60*H4d(t,k,N)
     /\ (t # "3" /\ 3 <= k /\ k <= N-3) => D7(LAMBDA s : H4d(t,k+s,N)) = 60*H3dd(t,k,N)
     /\ H4d(t,k,N) >= 0 \/ t = "w"
Wells ==
  \A t \in {"d","s"} :
     /\ W4(t,k,N) >= 0
     /\ D7(LAMBDA s : W4(t,k+s,N)) = 60*W3d(t,k,N)
     /\ D7(LAMBDA s : W3d(t,k+s,N)) = 60*W2dd(t,k,N)
     /\ W4("d",0,N) = 0 /\ W4(t,N,N) = 0
RatioLaw == (0 <= k /\ k <= N) =>
  /\ Ratio4(k,N)*k = H5("p",k,N)
  /\ Compl4(k,N)*(N-k) = N*N*N*N*N - H5("p",k,N)

S == <<a, b, N-a-b>>
Simplex == a >= 0 /\ b >= 0 /\ a+b <= N
Inner == a >= 6 /\ b >= 6 /\ a+b <= N-6 \* room for the stencil along the simplex
Three ==
  /\ FpG4N5(S[1],S[2],S[3],N) = FpG4N5(S[1],S[3],S[2],N)
  /\ Simplex => FpG4N5(S[1],S[2],S[3],N) + FpG4N5(S[2],S[1],S[3],N) + FpG4N5(S[3],S[1],S[2],N) = 4*N*N*N*N*N
  /\ Simplex => FpD0_2N4(S[1],S[2],S[3],N)*2 + FpD1_4N4(S[2],S[1],S[3],N) + FpD1_4N4(S[3],S[1],S[2],N) = 0
  /\ Inner => D7(LAMBDA s : FpG4N5(a+2*s,b-s,N-a-b-s,N)) = 60*3*2*FpD0_2N4(a,b,N-a-b,N)
  /\ Inner => D7(LAMBDA s : FpG4N5(a-s,b+2*s,N-a-b-s,N)) = 60*3*FpD1_4N4(a,b,N-a-b,N)
  \* reduces to p^3(10-15p+6p^2) on each edge
  /\ (b = 0 /\ Simplex) => FpG4N5(a,0,N-a,N) = 4*H5("p",a,N)
  /\ Simplex => MoD0num(S[1],S[2],S[3]) + MoD1num(S[2],S[1],S[3]) + MoD1num(S[3],S[1],S[2]) = 0
  \* the derivative of num/den is a quotient-rule identity: N*3*A^2*(g)' along (2,-1,-1)
  /\ MoD0num(S[1],S[2],S[3]) = 4*S[1]*MoA(S[1],S[2],S[3]) - S[1]*S[1]*(4*S[1]-2*S[2]-2*S[3])
  /\ MoD1num(S[1],S[2],S[3]) = -2*S[1]*MoA(S[1],S[2],S[3]) - S[1]*S[1]*(-2*S[1]+4*S[2]-2*S[3])
  /\ TW9(S[1],S[2],S[3],N) + TW9(S[2],S[1],S[3],N) + TW9(S[3],S[1],S[2],N) = 0
Triangles == (Simplex /\ a+b > 0 /\ a < N /\ b < N /\ N <= 8) =>
   /\ Opp01(S) = Opp01(<<S[2],S[1],S[3]>>) /\ Opp02(S) = Opp12(<<S[2],S[1],S[3]>>)
Tables ==
  /\ \A i,j \in 1..2 : Voigt2(i,j) = Voigt2(j,i)
  /\ {Voigt3(i,j) : i,j \in 1..3} = 1..6
  /\ {Tri(6,i,j) : i,j \in 1..6} = 1..21 /\ {Tri(3,i,j) : i,j \in 1..3} = 1..6
  /\ \A i,j,p,q \in 1..6 : (i <= j /\ p <= q /\ <<i,j>> # <<p,q>>) => Tri(6,i,j) # Tri(6,p,q)
Laws == TwoPhase /\ Wells /\ RatioLaw /\ Three /\ Triangles
TablesOK == (k = 0 /\ a = 0 /\ b = 0) => Tables
=============================================================================
