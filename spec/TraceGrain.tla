------------------------------ MODULE TraceGrain ------------------------------
EXTENDS TraceBase, AmpeGrain

Check(e,h) ==
  CASE e.ev = "numbering" ->
       LET lev == e.lev
           nl == Len(lev)
           In(u,c) == At(e.phase[u],c) >= e.thr
           G == GrainCells(lev,In)
           num == [g \in G |-> At(e.num[g[1]],g[2])]
           cls == [k \in 0..(e.count-1) |-> { g \in G : num[g] = k }]
           W(k) == GrainSum(lev,cls[k], LAMBDA u,c : 1)
           C(k) == GrainSum(lev,cls[k], LAMBDA u,c : At(e.conc[u],c))
           C2(k) == GrainSum(lev,cls[k], LAMBDA u,c : At(e.conc[u],c)*At(e.conc[u],c))
       IN Chk("converged", e.conv = 1)
          \cup Numbering(lev,e.n,e.per,G,LAMBDA g : num[g], e.count)
          \cup Chk("below the threshold", \A u \in 1..nl : \A c \in LevelCells(lev,u) : ~Covered(lev,u,c) /\ ~In(u,c) => At(e.num[u],c) = -1)
          \cup Chk("covered cells", \A u \in 1..nl : \A c \in LevelCells(lev,u) : Covered(lev,u,c) => At(e.num[u],c) = Shown(lev,u,c,LAMBDA v,x : At(e.num[v],x)))
          \cup Chk("volumes listed", Len(e.vol) = e.count)
          \cup Chk("volumes", Len(e.vol) = e.count => \A k \in 0..(e.count-1) : e.vol[k+1] = W(k))
          \cup (IF e.avg = <<-1>> THEN {}
                ELSE Chk("averages listed", Len(e.avg) = e.count /\ Len(e.dev) = e.count)
                     \cup Chk("averages", Len(e.avg) = e.count => \A k \in 0..(e.count-1) : Close(e.avg[k+1]*W(k), 64*C(k), W(k)))
                     \cup Chk("deviations", Len(e.dev) = e.count => \A k \in 0..(e.count-1) : LET w == W(k) c == C(k) IN Close(e.dev[k+1]*w*w, 16*(w*C2(k) - c*c), w*w))
                     \cup Chk("average of all grains", e.count > 0 => LET all == SumOn(0..(e.count-1), LAMBDA k : C(k))  w == SumOn(0..(e.count-1), LAMBDA k : W(k)) IN Len(e.all) = 1 /\ Close(e.all[1]*w, 64*all, w)))
          \cup (IF Len(e.show) = 0 THEN {}
                ELSE Chk("volumes of cells", \A u \in 1..nl : \A c \in LevelCells(lev,u) : LET k == At(e.num[u],c) IN At(e.show[u],c) = (IF k >= 0 THEN e.vol[k+1] ELSE 0)))
  [] e.ev = "extension" ->
       LET lev == e.lev
           nl == Len(lev)
           In(u,c) == At(e.phase[u],c) >= e.thr
           some == \E u \in 1..nl : \E c \in LevelCells(lev,u) : ~Covered(lev,u,c) /\ In(u,c)
       IN Chk("grains keep their orientation", \A u \in 1..nl : \A c \in LevelCells(lev,u) : ~Covered(lev,u,c) /\ In(u,c) => At(e.after[u],c) = At(e.before[u],c))
          \cup (IF nl = 1 THEN Chk("nearest grain", Grown(lev,e.n,e.per,LAMBDA c : In(1,c),e.before[1],e.after[1]))
                ELSE Chk("one orientation everywhere", some => \A u \in 1..nl : \A c \in LevelCells(lev,u) : At(e.after[u],c) = e.one))
  [] e.ev = "grainerror" -> {e.what}
  [] OTHER -> {"unknown"}

Upd(e,h) == h
TraceInit == InitWith(0)
TraceNext == NextWith(TraceData, Check, Upd)
TraceSpec == TraceInit /\ [][TraceNext]_<<l,hist,bad>>
=============================================================================
