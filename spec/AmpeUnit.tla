------------------------------- MODULE AmpeUnit -------------------------------
(* Meshless parts of AMPE: temperature histories, atomic mobilities, collective  *)
(* operations, database copies.                                                  *)
EXTENDS AmpeBase

(* --- temperature history: positions x (increasing), times tm (increasing), temperatures T[itime][ipos];   *)
(* queries in quarters.                                                                                      *)
HCell(v,q4) == \* index i of the interval v[i] .. v[i+1] the query lies in (a knot belongs to the interval on its right, the last knot to the last interval)
  Max2(1, Cardinality({ i \in 1..Len(v)-1 : 4*v[i] <= q4 }))
HFrac16(v,i,q4) == (4*(q4 - 4*v[i])) \div (v[i+1]-v[i])
HInside(v,q4) == 4*v[1] <= q4 /\ q4 <= 4*v[Len(v)]
\* 256 T
HTemp(h,t4,x4) ==
  LET i == HCell(h.tm,t4)  j == HCell(h.x,x4)  a == HFrac16(h.tm,i,t4)  b == HFrac16(h.x,j,x4)
      R(n) == (16-b)*h.T[n][j] + b*h.T[n][j+1]
  IN (16-a)*R(i) + a*R(i+1)
\* 1024 times the gradient: slope of the interval, blended towards the neighbouring interval away from the interval's centre
HGrad(h,t4,x4) ==
  LET i == HCell(h.tm,t4)  j == HCell(h.x,x4)  a == HFrac16(h.tm,i,t4)  b == HFrac16(h.x,j,x4)
      g(n,m) == (4*(h.T[n][m+1]-h.T[n][m])) \div (h.x[m+1]-h.x[m])
      G(n) == IF b < 8 /\ j > 1 THEN (8+b)*g(n,j) + (8-b)*g(n,j-1)
              ELSE IF b > 8 /\ j+2 <= Len(h.x) THEN (24-b)*g(n,j) + (b-8)*g(n,j+1)
              ELSE 16*g(n,j)
  IN (16-a)*G(i) + a*G(i+1)

(* --- atomic mobilities M = exp(dG/RT)/RT; 64^3 log2(RT M) for compositions in quarters, q = <<first,second>>  *)
(* with first in units of R T0 ln 2, second = 2^second, T = T0 2^-j = 2^(j0-j)                                  *)
MQ(q,j) == q[1]*Pow(2,j) + q[2]
MQx(x,j0,j) == IF Len(x) = 0 THEN 0 ELSE x[1]*(j0-j) + x[2]*Pow(4,j)
S12 == 4096
\* binary, c0 in quarters
DG2(m,c,j0,j) ==
  LET d == c - (4-c) IN
  1024*(c*(MQ(m.q[1],j)+MQx(m.x[1],j0,j)) + (4-c)*(MQ(m.q[2],j)+MQx(m.x[2],j0,j)))
  + c*(4-c)*(256*MQ(m.qq[1][1],j) + d*(64*MQ(m.qq[2][1],j) + d*(16*MQ(m.qq[3][1],j) + 4*d*MQ(m.qq[4][1],j))))
DG3(m,c,j0,j) ==
  1024*SumTo(3, LAMBDA i : c[i]*(MQ(m.q[i],j)+MQx(m.x[i],j0,j)))
  + SumOn({1,2,3}, LAMBDA k : LET a == IF k = 3 THEN 2 ELSE 1   b == IF k = 1 THEN 2 ELSE 3 IN
       c[a]*c[b]*(256*MQ(m.qq[1][k],j) + 64*(c[a]-c[b])*MQ(m.qq[2][k],j)))
\* 2^s times a power of two, -1 when out of range
P2(k,s) == IF k + s < 0 \/ k + s > 20 THEN -1 ELSE Pow(2,k+s)
\* phase mobilities times R T 1e-12 2^s, compositions in quarters; m: scaled atomic mobilities
Mob2(c,m) == c*(4-c)*(c*m[2] + (4-c)*m[1])
Mob3(c,m) == << c[1]*((4-c[1])*(4-c[1])*m[1] + c[1]*c[2]*m[2] + c[1]*c[3]*m[3]),
                4*0 + c[1]*c[2]*(-(4-c[1])*m[1] - (4-c[2])*m[2] + c[3]*m[3]),
                c[2]*(c[1]*c[2]*m[1] + (4-c[2])*(4-c[2])*m[2] + c[2]*c[3]*m[3]) >>
===============================================================================
