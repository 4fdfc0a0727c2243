------------------------------ MODULE TraceParam ------------------------------
EXTENDS TraceBase, AmpeParam

Check(e,h) ==
  CASE e.ev = "params" ->
       IF e.err # 0 \/ Refused(e) THEN Chk("refused", (e.err # 0) <=> Refused(e))
       ELSE LET num == Numbers(e)
                law == Laws(e)
                txt == Texts(e)
                lst == Lists(e)
            IN { k \in DOMAIN num : e.o[k] # num[k] }
               \cup { q[1] : q \in { x \in law : ~Close(e.o[x[1]]*x[2], x[3], x[2]) } }
               \cup { k \in DOMAIN txt : e.t[k] # txt[k] }
               \cup { k \in DOMAIN lst : e.v[k] # lst[k] }
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
