-------------------------------- MODULE Short --------------------------------
(***************************************************************************)
(* Divisions and remainders by one group d.  The algorithm goes through the   *)
(* dividend from the top with a partial remainder r < d and the next group g;  *)
(* here every kind of divisor meets every kind of r and g: the extremes, the    *)
(* neighbours of d, and the places where r * 10^9 + g passes a power of two     *)
(* (where arithmetic that is too narrow would wrap).  Behind them stands        *)
(* nothing, an empty group behind the point, or a full group.                   *)
(* Each is exported as a program that takes it through the operations Suffix.   *)
(***************************************************************************)
EXTENDS Lits, TLC

CONSTANTS Smalls,      \* divisors 1..Smalls
          Bits,        \* ... around 2^k
          Tens,        \* ... around 10^k
          Wraps,       \* partial dividends around 2^k
          Suffix
VARIABLES d, r, m, tail, n
svars == <<d, r, m, tail, n, reg, ret>>
View == <<d, r, m, tail, n>>

B == NPow10(9)
Nines == 999999999
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN NOne ELSE LET h == Pow2(k - 1) IN NAdd(h, h)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)

Divisors == {k \in (1..Smalls)
                   \cup UNION {{Two(k) - 1, Two(k), Two(k) + 1} : k \in Bits}
                   \cup UNION {{Ten(k) - 1, Ten(k), Ten(k) + 1} : k \in Tens}
                   \cup {333333333, 499999999, 500000000, 500000001, 999999998, Nines} : k >= 1 /\ k <= Nines}
Rests(k) == {q \in {0, 1, k \div 2, k - 2, k - 1} : q >= 0 /\ q < k}
\* partial dividends r * 10^9 + g
Plain(k, q) == {NAdd(NMul(NOfInt(q), B), NOfInt(g)) : g \in {0, 1, k - 1, k, 499999999, 500000000, 999999998, Nines}}
Wrapping(q) == LET lo == NMul(NOfInt(q), B)  hi == NMul(NOfInt(q + 1), B) IN
  {w \in UNION {{NSub(Pow2(k), NOne), Pow2(k)} : k \in Wraps} : NCmp(w, lo) >= 0 /\ NCmp(w, hi) < 0}
Tails == {"none", "behind", "full"}

Dividend == [neg |-> FALSE,
             c |-> CASE tail = "none" -> m [] tail = "behind" -> NMul(m, B) [] tail = "full" -> NAdd(NMul(m, B), NOfInt(Nines)),
             f |-> IF tail = "behind" THEN 9 ELSE 0, p |-> 27]
Divisor == [neg |-> FALSE, c |-> NOfInt(d), f |-> 0, p |-> 9]
Digits(v) == CatStr(NToDigits(v, MaxOf(NDigits(v), 1)), 1)

Init == SpecInit /\ d = 1 /\ r = 0 /\ m = NZero /\ tail = "none" /\ n = 0
Next == /\ n < 2 /\ n' = n + 1 /\ UNCHANGED <<reg, ret>>
        /\ IF n = 0 THEN d' \in Divisors /\ UNCHANGED <<r, m, tail>>
           ELSE /\ UNCHANGED d
                /\ r' \in Rests(d)
                /\ m' \in Plain(d, r') \cup Wrapping(r')
                /\ tail' \in Tails
Spec == Init /\ [][Next]_svars

\* the specification's quotient and remainder put the dividend together again
Known == n = 2 =>
  LET q == DivRes(Dividend, Divisor, 0)  e == RemRes(Dividend, Divisor)
      sc == Dividend.f
      whole == NDivMod(q.c, NPow10(q.f))[1]
  IN /\ q.out = OK /\ NCmp(e.c, NMul(NOfInt(d), NPow10(sc))) < 0
     /\ NAdd(NMul(NMul(whole, NOfInt(d)), NPow10(sc)), e.c) = Dividend.c
Emit == n = 2 =>
  PrintT("PROG parse 1 " \o Digits(CASE tail = "full" -> Dividend.c [] OTHER -> m) \o (IF tail = "behind" THEN ".000000000" ELSE "")
         \o ";parse 2 " \o ToString(d) \o Suffix)
=============================================================================
