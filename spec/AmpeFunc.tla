------------------------------ MODULE AmpeFunc ------------------------------
(* Interpolation functions h(phi), potential wells, averages, and the         *)
(* three-phase tilting functions.  Arguments are rationals K/N; every         *)
(* operator returns the value multiplied by the power of N in its name.       *)
EXTENDS AmpeBase

Pos(K) == Max2(0,K)
Clip(K,N) == Max2(0,Min2(N,K))
Poly == {"q","p","h","w","l","3","c"}

\* N^5 * h(K/N)
H5(t,K,N) ==
  LET P == Pos(K)  C == Clip(K,N) IN
  CASE t = "q" -> N*N*N*P*P
    [] t = "p" -> C*C*C*(10*N*N - 15*N*C + 6*C*C)
    [] t = "h" -> N*N*C*C*(3*N - 2*C)
    [] t = "w" -> N*N*P*P*(2*N - P)
    [] t = "l" -> N*N*N*N*C
    [] t = "3" -> N*N*P*P*P
    [] t = "c" -> N*N*N*N*N
\* N^4 * h'(K/N)
H4d(t,K,N) ==
  LET P == Pos(K)  C == Clip(K,N) IN
  CASE t = "q" -> 2*N*N*N*P
    [] t = "p" -> 30*C*C*(N-C)*(N-C)
    [] t = "h" -> 6*N*N*C*(N-C)
    [] t = "w" -> N*N*P*(4*N - 3*P)
    [] t = "l" -> IF 0 <= K /\ K <= N THEN N*N*N*N ELSE 0
    [] t = "3" -> 3*N*N*P*P
    [] t = "c" -> 0
\* N^3 * h''(K/N) (one-sided conventions at the clip points as in the code)
H3dd(t,K,N) ==
  LET P == Pos(K)  C == Clip(K,N) IN
  CASE t = "q" -> IF K >= 0 THEN 2*N*N*N ELSE 0
    [] t = "p" -> 60*C*(N*N - 3*N*C + 2*C*C)
    [] t = "h" -> 6*N*N*(N - 2*C)
    [] t = "w" -> 4*N*N*N - 6*N*N*P
    [] t = "l" -> 0
    [] t = "c" -> 0

\* where the second derivative is the derivative of the first (off the kinks)
SmoothAt(t,K,N) == CASE t \in {"p","h"} -> 0 < K /\ K < N
                     [] t = "w" -> 0 < K
                     [] t = "q" -> K # 0
                     [] OTHER -> TRUE

W4(t,K,N) == IF t = "d" THEN 16*K*K*(N-K)*(N-K) ELSE N*N*(N-K)*(N-K)
W3d(t,K,N) == IF t = "d" THEN 32*K*(N-K)*(N-2*K) ELSE 2*N*N*(K-N)
W2dd(t,K,N) == IF t = "d" THEN 32*(N*N + 6*K*(K-N)) ELSE 2*N*N

\* three-phase double-well: N^3 * 3 * (dF/dp0 - mean_j dF/dpj), F = sum 16p^2(1-p)^2
Dw3(K,N) == 32*K*(N-K)*(N-2*K)
TW9(K0,K1,K2,N) == 2*Dw3(K0,N) - Dw3(K1,N) - Dw3(K2,N)

(* Folch-Plapp 2005 *)
FpG4N5(K0,K1,K2,N) ==
  IF K0 < 0 THEN 0 ELSE IF K0 > N THEN 4*N*N*N*N*N
  ELSE K0*K0*(15*(N-K0)*(N*N + N*K0 - Sq(K2-K1)) + K0*(9*K0*K0 - 5*N*N))
FpRaw0(K0,K1,K2,N) == 5*K0*(Sq(K2-K1)*(3*K0-2*N) + Sq(N-K0)*(3*K0+2*N))
FpD0_2N4(K0,K1,K2,N) == IF K0 < 0 \/ K0 > N THEN 0 ELSE FpRaw0(K0,K1,K2,N)
FpD1_4N4(K0,K1,K2,N) ==
  IF K0 < 0 \/ K0 > N \/ K1 < 0 \/ K1 > N THEN 0
  ELSE -FpRaw0(K1,K0,K2,N) + 30*K1*K1*(N-K1)*(K2-K0)

(* Moelans 2011, as numerator / denominator *)
MoA(K0,K1,K2) == K0*K0 + K1*K1 + K2*K2
MoD0num(K0,K1,K2) == 2*K0*(2*K1*K1 + 2*K2*K2 + K0*K1 + K0*K2)    \* over 3A^2/N
MoD1num(K0,K1,K2) == 2*K0*(K0*(K2-2*K1) - (K1*K1+K2*K2))

(* Pair weights: the angles (over pi) of the triangle whose corners are the   *)
(* two-phase mixtures of the pairs.  Squared sides scaled by the product of   *)
(* the pair sums squared.                                                     *)
Corner(i,j,K) == \* corner of pair (i,j): barycentric coordinates times all pair sums
  LET s == [a \in 1..3 |-> [b \in 1..3 |-> K[a]+K[b]]]
      P == s[1][2]*s[1][3]*s[2][3]
  IN [a \in 1..3 |-> IF a = i \/ a = j THEN (K[a]*P) \div s[i][j] ELSE 0]
D2(u,v) == Sq(u[1]-v[1]) + Sq(u[2]-v[2]) + Sq(u[3]-v[3])
\* side opposite to the corner of pair 01, 02, 12
Opp01(K) == D2(Corner(1,3,K),Corner(2,3,K))
Opp02(K) == D2(Corner(1,2,K),Corner(2,3,K))
Opp12(K) == D2(Corner(1,2,K),Corner(1,3,K))

\* cos(pi*x), x in 0..F scaled F=2^12, result scaled 2^12, via cos(y)=2cos^2(y/2)-1 twice
F12 == 4096
CosS(x) == \* pi*x/4 in scale 2^12 (|.| <= pi/4), Taylor to y^6
  LET y == (x * 3217) \div 4096
      y2 == (y*y) \div 4096
      c == 4096 - y2 \div 2 + (y2*y2) \div (24*4096) - (((y2*y2) \div 4096)*y2) \div (720*4096)
      d == (2*c*c) \div 4096 - 4096
  IN (2*d*d) \div 4096 - 4096

(* stiffness index maps *)
Voigt2(i,j) == IF i = j THEN i ELSE 3
Voigt3(i,j) == IF i = j THEN i ELSE 9 - i - j
\* row-major upper triangle of a symmetric n x n matrix
Tri(n,i,j) == LET a == Min2(i,j)  b == Max2(i,j) IN SumTo(a-1, LAMBDA r : n-r+1) + (b-a) + 1

(* ratio h_p / h_l and its complement (1-h_p)/(1-h_l), times N^4 *)
Ratio4(K,N) == LET C == Clip(K,N) IN C*C*(10*N*N - 15*N*C + 6*C*C)
Compl4(K,N) == LET C == Clip(K,N) IN (N-C)*(N-C)*(N*N + 3*N*C + 6*C*C)
=============================================================================
