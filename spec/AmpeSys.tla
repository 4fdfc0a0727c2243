------------------------------ MODULE AmpeSys ------------------------------
(* The whole model: rates of all fields as functions of the fields alone.    *)
(* What is computed does not depend on how the domain is cut into patches,   *)
(* nor on the choice of axes, their orientation or (periodic) origin, and a  *)
(* level that covers the whole domain behaves like a uniform grid.           *)
EXTENDS AmpeBase

\* image of a cell: direction d of the image is direction perm[d] of the source, reversed (refl) or shifted
Image(c, n, perm, refl, sh) ==
  [d \in 1..Len(c) |-> LET p == perm[d] IN IF refl[d] = 1 THEN n[p] - 1 - c[p] ELSE (c[p] + sh[d]) % n[p]]

SameUnder(a, b, n, perm, refl, sh, t) ==
  /\ Len(a) = Len(b)
  /\ \A m \in 1..Len(a) : \A c \in Dom(a[m]) : Close(At(a[m], c), At(b[m], Image(c, n, perm, refl, sh)), t)

\* a three-dimensional field that repeats the two-dimensional one on every layer
SameLayers(a, b, t) ==
  /\ Len(a) = Len(b)
  /\ \A m \in 1..Len(a) : \A c \in Dom(b[m]) : Close(At(b[m], c), At(a[m], <<c[1],c[2]>>), t)
=============================================================================
