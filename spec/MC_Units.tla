------------------------------ MODULE MC_Units -------------------------------
(***************************************************************************)
(* The unit algorithms against plain arithmetic, on every pair of magnitudes *)
(* of at most MaxI/MaxF units, leading zero units included.                  *)
(***************************************************************************)
EXTENDS Units, TLC
CONSTANTS MI, MF, MaxFU
VARIABLES x, y

Mags == UNION { [iu : {i}, fu : {f}, u : [1..(i + f) -> 0..(B - 1)]] : i \in 0..MI, f \in 0..MF }
Fits(m) == m.iu + m.fu <= MaxU
Init == x \in {m \in Mags : Fits(m)} /\ y = x
Next == y = x /\ y' \in {m \in Mags : Fits(m)} /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y>>

F == MaxI(x.fu, y.fu)
X == ValueAt(x, F)
Y == ValueAt(y, F)
RECURSIVE UnitsOf(_)
UnitsOf(v) == IF v = 0 THEN 0 ELSE 1 + UnitsOf(v \div B)       \* number of units of a value

AddRight ==
  LET a == AddAbs(x, y)
      need == MaxI(MaxI(IU(x), IU(y)), UnitsOf((X + Y) \div Pow(F))) + F
  IN /\ a.over = (need > MaxU)                         \* as AddOut of Dec
     /\ ~a.over => /\ Horner(a.r.u, 1) = X + Y /\ a.r.fu = F
                   /\ a.r.iu = UnitsOf((X + Y) \div Pow(F))
                   /\ a.r.iu + a.r.fu <= MaxU /\ Len(a.r.u) = a.r.iu + a.r.fu
SubRight ==
  LET s == SubAbs(x, y) IN
  /\ s.over = (MaxI(IU(x), IU(y)) + F > MaxU)
  /\ ~s.over => /\ s.neg = (X < Y)
                /\ Horner(s.r.u, 1) = (IF X < Y THEN Y - X ELSE X - Y)
                /\ s.r.iu + s.r.fu <= MaxU
CmpRight == CmpAbs(x, y) = (IF X < Y THEN -1 ELSE IF X > Y THEN 1 ELSE 0)

\* at this base a unit is one digit, so the integral digits together are IU(x) + IU(y)
MulRight ==
  LET ig == IU(x) + IU(y)
      m == MulAbs(x, y, ig, MaxFU)
      full == Horner(x.u, 1) * Horner(y.u, 1)
      drop == x.fu + y.fu - m.fu
      kept == Horner(m.u, 1)
  IN /\ m.over = (ig > MaxU)
     /\ ~m.over =>
          IF drop = 0 THEN kept = full
          ELSE /\ kept * Pow(drop) <= full
               \* each row loses less than one unit of the last place, and so does each carry
               /\ full < (kept + 1 + MinI(Len(y.u), Len(x.u)) + 1) * Pow(drop)
HashRight == (HashOf(x) = HashOf(y)) <=> (X = Y)
Right == AddRight /\ SubRight /\ CmpRight /\ MulRight /\ HashRight
=============================================================================
