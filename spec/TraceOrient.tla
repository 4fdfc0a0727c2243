------------------------------ MODULE TraceOrient ------------------------------
(* Orientation utilities (utils/quat.py). *)
EXTENDS TraceBase, AmpeQuat

\* three images of a vector: times 1, sqrt 2, 2; the integer representative of a symmetry operation among them
Sc(r) == CASE VNorm2(r) = 1 -> 1 [] VNorm2(r) = 2 -> 2 [] OTHER -> 3
IsRot(x,r) == x[Sc(r)] = r
Angle1 == { -4, -3, -2, -1, 0, 1, 2, 3, 4 }

Check(e,h) ==
  CASE e.ev = "py_table" ->
         LET N == Len(e.rows) IN
         IF e.l = 1
         THEN Chk("returned", e.ok) \cup Chk("count", e.n = 9 /\ N = 9 /\ { e.rows[i][1][1][1] : i \in 1..N } = Angle1)
              \cup Chk("inverse", \A i \in 1..N : LET c == e.rows[i][2] IN c \in 0..N-1 /\ e.rows[c+1][1][1][1] = -e.rows[i][1][1][1]
                                                    /\ e.rows[i][3] = e.rows[c+1][1])
         ELSE LET G == Group(e.l)  R(i) == { r \in G : IsRot(e.rows[i][1],r) } IN
              Chk("returned", e.ok) \cup Chk("count", e.n = Cardinality(G) /\ N = e.n /\ UNION { R(i) : i \in 1..N } = G)
              \cup Chk("first", IsRot(e.rows[1][1], IF e.l = 4 THEN One4 ELSE One2))
              \cup Chk("inverse", \A i \in 1..N : \A r \in R(i) : LET c == e.rows[i][2] IN
                         c \in 0..N-1 /\ IsRot(e.rows[c+1][1],Conj(r)) /\ e.rows[i][3] = e.rows[c+1][1])
    [] e.ev = "py_mul" ->
         Chk("returned", e.ok) \cup Chk("product", e.out = Mul(e.a,e.b))
         \cup Chk("arguments", (e.mode = "a" \/ e.a2 = e.a) /\ (e.mode = "b" \/ e.b2 = e.b))
    [] e.ev = "py_conj" -> Chk("returned", e.ok) \cup Chk("conjugate", e.out = Conj(e.a) /\ e.out2 = Conj(e.a)) \cup Chk("arguments", e.a2 = e.a)
    [] e.ev = "py_lin" -> Chk("returned", e.ok) \cup Chk("sum", e.add = VAdd(e.a,e.b) /\ e.sub = VSub(e.a,e.b)) \cup Chk("copy", e.copy = e.a)
                          \cup Chk("duplicate", e.a2 = e.a /\ e.dup = [e.a EXCEPT ![1] = @ + 1])
    [] e.ev = "py_norm" -> Chk("returned", e.ok) \cup Chk("magnitude", e.m2 = VNorm2(e.a))
                           \cup Chk("normalise", e.n = (IF e.zero THEN VScale(0,e.a) ELSE e.a)) \cup Chk("make", e.mk = e.a)
    [] e.ev = "py_diff" -> Chk("returned", e.ok) \cup Chk("chord", e.c = Closeness(e.a,e.b,e.g)) \cup Chk("image", e.q = Mul(e.b,e.g))
    [] e.ev = "py_symm" ->
         LET G == Group(Len(e.a))  I == { g \in G : e.out[Sc(g)] = Mul(e.b,g) } IN
         Chk("returned", e.ok)
         \cup Chk("equivalent", I # {})
         \cup Chk("closest", \A g \in I : \A k \in G : Closeness(e.a,e.b,k) <= Closeness(e.a,e.b,g))
         \cup Chk("arguments", e.a2 = e.a /\ e.b2 = e.b)
    [] e.ev = "py_symm1" ->
         \* units of pi/8: a quarter turn is 4
         Chk("returned", e.ok)
         \cup Chk("equivalent", \E k \in Angle1 : e.out = e.b + 4*k)
         \cup Chk("closest", \A k \in Angle1 : Abs(e.out - e.a) <= Abs(e.b + 4*k - e.a))
    [] e.ev = "py_angle" -> Chk("returned", e.ok) \cup Chk("angle", IF e.big THEN e.four = -1 /\ e.two = -1 ELSE e.four = 4*e.k /\ e.two = 2*e.k)
    [] e.ev = "py_rand" -> Chk("returned", e.ok)
         \cup Chk("unit", IF e.l = 4 THEN e.n = 1 ELSE (e.n - e.t) % 24 = 0 /\ e.rest = <<1,0,0>>)
    [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
================================================================================
