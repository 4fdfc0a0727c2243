SPECIFICATION Spec
CONSTANTS NX = 4
 NY = 3
 RMax = 4
INVARIANTS Balanced PeriodicPicture LastWins Covers
CHECK_DEADLOCK FALSE
