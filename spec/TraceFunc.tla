------------------------------ MODULE TraceFunc ------------------------------
EXTENDS TraceBase, AmpeFunc

All(e, P(_)) == \A i \in 1..Len(e.k) : P(i)
R(x,y) == Close(x,y,1)      \* equal up to one unit of the logged rounding

Check(e,h) ==
  LET N == e.n IN
  CASE e.ev = "interp" ->
       Chk("value", All(e, LAMBDA i : e.v0[i] = H5(e.t,e.k[i],N)))
  \cup Chk("derivative", All(e, LAMBDA i : e.v1[i] = H4d(e.t,e.k[i],N)))
  \cup Chk("second", e.t = "3" \/ All(e, LAMBDA i : e.v2[i] = H3dd(e.t,e.k[i],N)))
  [] e.ev = "interp_m" ->  \* p^2/(p^2+(1-p)^2), logged times 2^12
       Chk("value", All(e, LAMBDA i : LET C == Clip(e.k[i],N)  A == C*C+(N-C)*(N-C) IN
                Abs(e.v0[i]*A - 4096*C*C) <= A))
  \cup Chk("derivative", All(e, LAMBDA i : LET C == Clip(e.k[i],N)  A == C*C+(N-C)*(N-C) IN
                Abs((e.v1[i]*A) - ((2*C*(N-C)*N*N) \div A)*4096) <= 4*A + 4096))
  [] e.ev = "interp_s" ->  \* k = 0,1,..: log-cosh ramp, logged times 2^24
       Chk("value", e.v0[1] = 0 /\ Close(e.v0[N+1], 16777216, 1)
                    /\ \A i \in 1..Len(e.neg) : e.neg[i] = 0 /\ e.dneg[i] = 0)
  \cup Chk("derivative", 
        /\ e.v1[1] = 0
        /\ \A i \in 1..(Len(e.k)-1) : LET s == N*(e.v0[i+1]-e.v0[i]) IN
              e.v1[i] - 2*N <= s /\ s <= e.v1[i+1] + 2*N
        \* slope c*tanh: doubling formula, scale 2^24 -> 2^9
        /\ \A i \in 2..(Len(e.k) \div 2) : LET t == e.v1[i] \div 32768  u == e.v1[2*i-1] \div 32768
                                              c == e.v1[Len(e.k)] \div 32768 IN
              Abs(u*(c*c+t*t) - 2*c*c*t) <= 5*c*c)
  [] e.ev = "well" ->
       Chk("value", All(e, LAMBDA i : e.v0[i] = W4(e.t,e.k[i],N)))
  \cup Chk("derivative", All(e, LAMBDA i : e.v1[i] = W3d(e.t,e.k[i],N)))
  \cup Chk("second", All(e, LAMBDA i : e.v2[i] = W2dd(e.t,e.k[i],N)))
  [] e.ev = "average" ->
       \* k[i], m[i] > 0 over N: values logged: a: 2N*v ; h: 2^15*v*(den) by cross multiplication
       Chk("arithmetic", All(e, LAMBDA i : e.va[i] = e.k[i] + e.m[i] /\ e.da[i] = 1))
  \cup Chk("harmonic", All(e, LAMBDA i :
          IF e.k[i] <= 0 \/ e.m[i] <= 0 THEN e.vh[i] = 0
          ELSE Abs(e.vh[i]*(e.k[i]+e.m[i]) - 2*e.k[i]*e.m[i]*16384) <= e.k[i]+e.m[i]))
  \cup Chk("harmonicderivative", All(e, LAMBDA i :
          IF e.k[i] <= 0 \/ e.m[i] <= 0 THEN e.dh[i] = 0
          ELSE LET s == e.k[i]+e.m[i] IN Abs(e.dh[i]*s*s - 2*e.m[i]*e.m[i]*16384) <= s*s))
  [] e.ev = "avgtiny" ->   \* averages of 10^ea and 10^eb vanish exactly when one is below 10^-16
       Chk("threshold", All(e, LAMBDA i : (e.z[i] = 1) <=> (e.k[i] < -16 \/ e.m[i] < -16)))
  [] e.ev = "liminv" ->    \* 1/v, limited to 10^4 for |v| <= 10^-4 ; v = k/N
       Chk("inverse", All(e, LAMBDA i :
          IF 10000*Abs(e.k[i]) <= N THEN e.v0[i] = 10000*e.sc1 ELSE Abs(e.v0[i]*e.k[i] - N*e.sc1) <= Abs(e.k[i])))
  [] e.ev = "ratio" ->
       Chk("ratio", All(e, LAMBDA i : e.v0[i] = Ratio4(e.k[i],N) /\ e.one[i] = 1 /\ e.onec[i] = 1))
  \cup Chk("complement", All(e, LAMBDA i : e.v1[i] = Compl4(e.k[i],N)))
  [] e.ev = "stiffness" ->
       Chk("voigt", /\ \A i,j \in 1..2 : e.s2[i][j] = Voigt2(i,j)
                    /\ \A i,j \in 1..3 : e.s3[i][j] = Voigt3(i,j))
  \cup Chk("storage", /\ \A i,j \in 1..3 : e.st2[i][j] = Tri(3,i,j)
                      /\ \A i,j \in 1..6 : e.st3[i][j] = Tri(6,i,j))
  [] e.ev = "arrop" ->
       Chk("operation", All(e, LAMBDA i : e.mul[i] = e.k[i]*e.m[i] /\ e.add[i] = e.k[i]+e.m[i]))
  (* three phases: e.k = list of triples *)
  [] e.ev = "folchplapp" ->
       Chk("g0", All(e, LAMBDA i : LET K == e.k[i] IN e.v0[i] = FpG4N5(K[1],K[2],K[3],N)))
  \cup Chk("dg0dp0", All(e, LAMBDA i : LET K == e.k[i] IN e.v1[i] = FpD0_2N4(K[1],K[2],K[3],N)))
  \cup Chk("dg0dp1", All(e, LAMBDA i : LET K == e.k[i] IN e.v2[i] = FpD1_4N4(K[1],K[2],K[3],N)))
  [] e.ev = "moelans" ->   \* logged times 2^12
       Chk("g0", All(e, LAMBDA i : LET K == e.k[i]  A == MoA(K[1],K[2],K[3]) IN
          IF K[1] < 0 THEN e.v0[i] = 0 ELSE Abs(e.v0[i]*A - 4096*K[1]*K[1]) <= A))
  \cup Chk("dg0dp0", All(e, LAMBDA i : LET K == e.k[i]  A == MoA(K[1],K[2],K[3]) IN
          IF K[1] < 0 THEN e.v1[i] = 0 ELSE Abs(e.v1[i]*3*A*A - 1024*N*MoD0num(K[1],K[2],K[3])) <= 3*A*A))
  \cup Chk("dg0dp1", All(e, LAMBDA i : LET K == e.k[i]  A == MoA(K[1],K[2],K[3]) IN
          IF K[1] < 0 THEN e.v2[i] = 0 ELSE Abs(e.v2[i]*3*A*A - 1024*N*MoD1num(K[1],K[2],K[3])) <= 3*A*A))
  [] e.ev = "triplewell" ->
       Chk("projection", All(e, LAMBDA i : LET K == e.k[i] IN e.v0[i] = TW9(K[1],K[2],K[3],N)))
  [] e.ev = "weights" ->   \* logged times 2^12 ; w = <<w01,w02,w12>> for all six orderings of one triple
       LET K == e.k  w == e.w[1]  S == w[1]+w[2]+w[3]
           o == <<Opp01(K), Opp02(K), Opp12(K)>> IN
       Chk("sum", Close(S, 4096, 2) /\ \A j \in 1..3 : 0 <= w[j] /\ w[j] <= 4096)
  \cup Chk("equivariant", \A p \in 1..6 :
          LET pm == e.perm[p] \* position -> original phase
              pr == <<<<1,2>>,<<1,3>>,<<2,3>>>>
              ix(i,j) == IF {i,j} = {1,2} THEN 1 ELSE IF {i,j} = {1,3} THEN 2 ELSE 3
          IN \A q \in 1..3 : Close(e.w[p][q], w[ix(pm[pr[q][1]],pm[pr[q][2]])], 1))
  \cup Chk("order", \A i,j \in 1..3 : o[i] < o[j] => w[i] <= w[j] + 1)
  \cup Chk("equal", \A i,j \in 1..3 : o[i] = o[j] => Close(w[i],w[j],1))
  \cup Chk("angle", LET
            mx == Max2(o[1],Max2(o[2],o[3]))
            z == [j \in 1..3 |-> o[j] \div (mx \div 2048 + 1)]  \* squared sides, scaled to <= 2^11
          IN \A i \in 1..3 : LET j == (i % 3)+1  k == ((i+1) % 3)+1
                                X == z[j]+z[k]-z[i]  Y == z[j]*z[k]
                                c == CosS(w[i]) IN
               (z[j] >= 64 /\ z[k] >= 64) =>
                 /\ Abs(X) >= 40 => (c > 0 <=> X > 0)
                 /\ Abs((c*c) \div 4096 - (X*X) \div (Max2(Y,1024) \div 1024)) <= 160)
  [] e.ev = "weightsclamp" ->
       Chk("clamp", \A j \in 1..3 : Close(e.w[j], e.wc[j], 2))
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
