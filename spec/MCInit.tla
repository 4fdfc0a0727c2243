------------------------------ MODULE MCInit ------------------------------
(* Painting a domain cell by cell: whatever the grains, the composition rule  *)
(* leaves the domain average at its nominal value, a periodic direction makes *)
(* the picture invariant under a shift by one period, and every cell belongs  *)
(* to the last grain that covers it.                                          *)
EXTENDS AmpeInit
CONSTANTS NX, NY, RMax
VARIABLES balls, per, nom, given, mode, at, mass, paint

N3 == <<NX,NY,1>>
Vol == NX*NY
Ball == [c : {<<60*i,60*j,60>> : i \in 0..2*NX, j \in 0..2*NY}, r : {60*k : k \in 1..RMax}]

Init ==
  /\ balls \in { <<b>> : b \in Ball } \cup { <<b,[c |-> <<120,120,60>>, r |-> 120]>> : b \in Ball }
  /\ per \in {<<0,0,0>>,<<1,0,0>>,<<1,1,0>>}
  /\ nom \in {2,3} /\ given \in {0,5} /\ mode \in {"ni","no"}
  /\ at = 1 /\ mass = 0 /\ paint = <<>>

Own(c) == Owner(N3,per,c,balls)
Vs == Cardinality({ c \in 1..Vol : Own(c) > 0 })
Value(c) == IF mode = "ni" THEN (IF Own(c) > 0 THEN given*(Vol-Vs) ELSE OutFor(nom,given,Vol,Vs))
                           ELSE (IF Own(c) > 0 THEN InFor(nom,given,Vol,Vs) ELSE given*Vs)
Next == /\ at <= Vol
        /\ at' = at + 1
        /\ mass' = mass + Value(at)
        /\ paint' = Append(paint,Own(at))
        /\ UNCHANGED <<balls,per,nom,given,mode>>
Spec == Init /\ [][Next]_<<balls,per,nom,given,mode,at,mass,paint>>

Balanced == at > Vol => mass = nom*Vol*(IF mode = "ni" THEN Vol-Vs ELSE Vs)
Shift(b) == [b EXCEPT !.c = <<@[1]+120*NX,@[2],@[3]>>]
\* centres live in [0,N]: only one shift stays within the images considered
PeriodicPicture == (at > Vol /\ per[1] = 1 /\ balls[1].c[1] = 0) => \A c \in 1..Vol : InBall(N3,per,c,balls[1]) = InBall(N3,per,c,Shift(balls[1]))
LastWins == \A c \in 1..Len(paint) : paint[c] = 0 \/ (InBall(N3,per,c,balls[paint[c]]) /\ \A j \in paint[c]+1..Len(balls) : ~InBall(N3,per,c,balls[j]))
\* a grain covers its own centre's cell as soon as it is wider than a cell
Covers == at > Vol => \A k \in 1..Len(balls) : balls[k].r < 120 \/ \A c \in 1..Vol :
            (\A d \in 1..2 : Abs(Mid(N3,c)[d]-balls[k].c[d]) <= 60) => InBall(N3,per,c,balls[k])
=============================================================================
