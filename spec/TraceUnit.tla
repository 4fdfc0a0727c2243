------------------------------- MODULE TraceUnit -------------------------------
EXTENDS TraceBase, AmpeUnit, AmpeEvents

Check(e,h) ==
  CASE e.ev = "iv_new" -> Chk("accepted", e.ok = (EvKind(e.c) # "error"))
    [] e.ev = "iv" -> Chk("schedule", e.fire = EvFires(h.p,h.s,e.op,e.k,e.t))
    [] e.ev = "hist_q" ->
         LET in == HInside(e.h.tm,e.t4) /\ HInside(e.h.x,e.x4) IN
         IF ~in THEN Chk("range", e.rc = 1)
         ELSE IF e.rc = 1 /\ e.t4 = 4*e.h.tm[Len(e.h.tm)] THEN {}  \* the end of the history may be refused
         ELSE Chk("range", e.rc = 0) \cup Chk("temperature", e.t = HTemp(e.h,e.t4,e.x4)) \cup Chk("gradient", e.g = HGrad(e.h,e.t4,e.x4))
    [] e.ev = "mob2" ->
         LET dg(i) == DG2(e.m[i],e.c,e.j0,e.j)
             k(i) == dg(i) \div S12
             m == [i \in 1..2 |-> P2(k(i),e.s)]
         IN Chk("atomic", \A i \in 1..2 : e.a[i] = dg(i)) \cup Chk("wrapper", e.b = e.a)
            \cup (IF \A i \in 1..2 : dg(i) % S12 = 0 /\ m[i] >= 0 THEN Chk("phase", e.f = Mob2(e.c,m)) ELSE {})
    [] e.ev = "mob3" ->
         LET dg(i) == DG3(e.m[i],e.c,e.j0,e.j)
             k(i) == dg(i) \div S12
             m == [i \in 1..3 |-> P2(k(i),e.s)]
             M == Mob3(e.c,m)
         IN Chk("atomic", \A i \in 1..3 : e.a[i] = dg(i))
            \cup Chk("symmetric", e.f[2] = e.f[3])
            \cup (IF \A i \in 1..3 : dg(i) % S12 = 0 /\ m[i] >= 0 THEN Chk("phase", e.f[1] = M[1] /\ e.f[2] = M[2] /\ e.f[4] = M[3]) ELSE {})
    [] e.ev = "coll" ->
         LET N == e.n  E == DOMAIN e.vals
             vals(r) == SelectSeq([i \in E |-> IF e.of[i] = r THEN <<e.vals[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
             keys == { e.keys[i] : i \in DOMAIN e.keys }
             sum(k) == SumOn({ i \in E : e.keys[i] = k }, LAMBDA i : e.vals[i])
             flat == FlattenSeq([r \in 1..N |-> [i \in DOMAIN vals(r-1) |-> vals(r-1)[i][1]]])
         IN Chk("returned", e.ok) \cup (IF ~e.ok THEN {} ELSE
            CASE e.what = "map" -> Chk("keys", \A r \in 1..N : { e.key[r][i] : i \in DOMAIN e.key[r] } = keys /\ Len(e.key[r]) = Cardinality(keys))
                                   \cup Chk("sums", \A r \in 1..N : \A i \in DOMAIN e.key[r] : e.out[r][i] = sum(e.key[r][i]))
              [] e.what \in {"gatherd","gatheri"} -> Chk("gathered", \A r \in 1..N : e.out[r] = Append(flat, -77))
              [] OTHER -> Chk("sum", \A r \in 1..N : \A i \in DOMAIN e.out[r] : e.out[r][i] = SumTo(N, LAMBDA q : vals(q-1)[i][1])))
    [] e.ev = "arrop" -> Chk("multiply", \A i \in DOMAIN e.a : e.mul[i] = e.a[i]*e.b[i] /\ e.src[i] = e.b[i])
                         \cup Chk("add", \A i \in DOMAIN e.a : e.add[i] = e.a[i]+e.b[i] /\ e.src2[i] = e.b[i])
    [] e.ev = "dbc" ->
         \* in: <<path, type, values>>; trees: <<path, values>>, the path of an array ends in "/"
         LET S(x) == { x[i] : i \in DOMAIN x }
             T(a) == <<IF Len(a[3]) = 1 THEN a[1] ELSE a[1] \o "/", a[3]>>
             E == { T(a) : a \in { b \in S(e.in) : b[2] # "bool" } }
             bools == { b[1] : b \in { x \in S(e.in) : x[2] = "bool" } }
             plain(x) == { y \in S(x) : y[1] \notin bools /\ \A b \in bools : y[1] # b \o "/" }
         IN Chk("tree", plain(e.tree) = E) \cup Chk("json", plain(e.json) = E)
            \cup Chk("copy", S(e.copy) = S(e.in) /\ Len(e.copy) = Len(e.in))
    [] OTHER -> {"unknown"}

Upd(e,h) == IF e.ev = "iv_new" THEN [p |-> EvParams(e.c), s |-> EvInit]
            ELSE IF e.ev = "iv" THEN [h EXCEPT !.s = EvNext(h.p,h.s,e.op,e.k,e.t)] ELSE h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
================================================================================
