------------------------------ MODULE TraceBase ------------------------------
(* Trace validation monitor.  A trace module EXTENDS this one, defines        *)
(*   Check(e,h) : the set of labels of the obligations event e violates in    *)
(*                history state h (empty: e is a behaviour of the spec)       *)
(*   Upd(e,h)   : the history state after e                                   *)
(*   Hist0      : the initial history state                                   *)
(* and uses InitWith/NextWith.  A trace is accepted iff every event was       *)
(* consumed and none violated an obligation.                                  *)
EXTENDS AmpeBase, Json, IOUtils

VARIABLES l, hist, bad

TraceData == ndJsonDeserialize(IOEnv.TRACE)

Filler == 1073741829   \* log of the driver's filler value: never in range

InitWith(h0) == l = 1 /\ hist = h0 /\ bad = <<>>

NextWith(Tr, Check(_,_), Upd(_,_)) ==
  /\ l <= Len(Tr)
  /\ l' = l + 1
  /\ LET e == Tr[l]
         f == Check(e,hist)
     IN /\ bad' = IF f = {} THEN bad ELSE Append(bad, <<e.id, e.ev, f>>)
        /\ hist' = Upd(e,hist)

\* evaluated as an invariant: reports each rejected event once, when found
Report == (l > 1 /\ bad # <<>> /\ bad[Len(bad)][1] = TraceData[l-1].id) =>
             PrintT(<<"REJECT", bad[Len(bad)]>>)
=============================================================================
