----------------------------- MODULE RoundUnits -----------------------------
(***************************************************************************)
(* How the library rounds, unit by unit, as a machine: D digits of base b    *)
(* make a unit (b is 10 and D is 9 in the library; here both are small       *)
(* enough for TLC to run through every decimal and every number of places).  *)
(*                                                                          *)
(*   x       the decimal: iu integral and fu fractional units, f fractional   *)
(*           digits, u the units, least significant first                     *)
(*   n       places to round to (negative: integral digits)                   *)
(*   u, iu, fu, carry, idx, clr                                               *)
(*           working units; carry goes into unit idx (from 0); units below     *)
(*           clr are still to be cleared                                      *)
(*   ph      "start", "unit", "carry", "clear", "done", "over", "zero"         *)
(*                                                                          *)
(* Start shifts the kept units down and drops the others (or pads), Unit      *)
(* rounds inside one unit, Carry moves a carry up one unit, Clear zeroes the   *)
(* units below.  Halfway says what is still to be done never changes what the  *)
(* result will be; Right says the result is the value rounded half up.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS b, D, MaxU, MI, MF,
          PerPattern         \* TRUE: programs are exported, one per pattern
VARIABLES x, n, u, iu, fu, carry, idx, clr, ph
vars == <<x, n, u, iu, fu, carry, idx, clr, ph>>

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
B == Pow(b, D)
RECURSIVE Val(_, _)
Val(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + B * Val(s, k + 1)
Groups(d) == (d + D - 1) \div D
MinI(p, q) == IF p <= q THEN p ELSE q
Pad(s) == [k \in 1..MaxU |-> IF k <= Len(s) THEN s[k] ELSE 0]
RECURSIVE Lead(_, _)
Lead(s, k) == IF k = 0 THEN 0 ELSE IF s[k] # 0 THEN k ELSE Lead(s, k - 1)
IUof(y) == LET l == Lead(y.u, Len(y.u)) IN IF l > y.fu THEN l - y.fu ELSE 0

\* the lowest unit has nothing below the fractional digits
Clean(s, f) == f % D # 0 => s[1] % Pow(b, D - (f % D)) = 0
Places == (0 - MI * D - 1)..(MF * D + D + 1)

Init == /\ \E i \in 0..MI, f \in 0..(MF * D) : \E s \in [1..(i + Groups(f)) -> 0..(B - 1)] :
             /\ i + Groups(f) \in 1..MaxU /\ Clean(s, f)
             /\ x = [iu |-> i, fu |-> Groups(f), f |-> f, u |-> s]
        /\ n \in Places
        /\ u = <<>> /\ iu = 0 /\ fu = 0 /\ carry = 0 /\ idx = 0 /\ clr = 0 /\ ph = "start"

\* more places than there are: zeros below, as far as there is room
PadStep ==
  /\ n >= x.f
  /\ LET m == MinI(n, D * (MaxU - IUof(x)))
         g == Groups(m)
         i == MinI(x.iu, MaxU - g)
     IN /\ u' = Pad([k \in 1..(g - x.fu) |-> 0] \o SubSeq(x.u, 1, x.fu + i))
        /\ iu' = i /\ fu' = g
  /\ ph' = "done" /\ UNCHANGED <<x, n, carry, idx, clr>>
\* integral digits: the fraction goes
IntStep ==
  /\ n < 0
  /\ LET k == 0 - n IN
     IF k > D * x.iu
     THEN /\ ph' = "zero" /\ u' = Pad(<<>>) /\ iu' = 1 /\ fu' = 0 /\ UNCHANGED <<carry, idx, clr>>
     ELSE /\ u' = Pad(SubSeq(x.u, x.fu + 1, x.fu + x.iu))
          /\ iu' = x.iu /\ fu' = 0
          /\ carry' = IF k % D = 0 /\ x.u[x.fu + k \div D] >= B \div 2 THEN 1 ELSE 0
          /\ idx' = k \div D /\ clr' = k \div D
          /\ ph' = IF k % D = 0 THEN "carry" ELSE "unit"
  /\ UNCHANGED <<x, n>>
\* fewer places than there are: at the edge of a unit the unit below only decides the carry
FracStep ==
  /\ n >= 0 /\ n < x.f
  /\ LET keep == Groups(n + 1)                 \* units looked at
         edge == n % D = 0
         left == IF edge THEN keep - 1 ELSE keep  \* units kept
     IN /\ carry' = IF edge /\ x.u[x.fu - keep + 1] >= B \div 2 THEN 1 ELSE 0
        /\ u' = Pad(SubSeq(x.u, x.fu - left + 1, x.fu + x.iu))
        /\ fu' = left /\ iu' = x.iu
        /\ idx' = (left * D - n) \div D /\ clr' = (left * D - n) \div D
        /\ ph' = IF edge THEN "carry" ELSE "unit"
  /\ UNCHANGED <<x, n>>
Start == ph = "start" /\ (PadStep \/ IntStep \/ FracStep)

Trunc == IF n < 0 THEN 0 - n ELSE fu * D - n       \* digits of the working units to remove
Unit ==
  /\ ph = "unit"
  /\ LET p == Pow(b, Trunc % D)
         r == u[idx + 1] % p
         t == u[idx + 1] - r + (IF 2 * r >= p THEN p ELSE 0)
     IN /\ u' = [u EXCEPT ![idx + 1] = IF t >= B THEN t - B ELSE t]
        /\ carry' = IF t >= B THEN 1 ELSE 0
  /\ idx' = idx + 1 /\ ph' = "carry" /\ UNCHANGED <<x, n, iu, fu, clr>>
Carry ==
  /\ ph = "carry"
  /\ IF carry = 0 THEN ph' = "clear" /\ UNCHANGED <<u, carry, idx, iu>>
     ELSE IF idx < iu + fu
     THEN LET t == u[idx + 1] + 1 IN
          /\ u' = [u EXCEPT ![idx + 1] = t % B] /\ carry' = t \div B /\ idx' = idx + 1
          /\ UNCHANGED <<ph, iu>>
     ELSE IF idx = MaxU THEN ph' = "over" /\ UNCHANGED <<u, carry, idx, iu>>
     ELSE /\ u' = [u EXCEPT ![idx + 1] = 1] /\ carry' = 0 /\ iu' = iu + 1 /\ ph' = "clear" /\ UNCHANGED idx
  /\ UNCHANGED <<x, n, fu, clr>>
Clear == /\ ph = "clear" /\ u' = [k \in 1..MaxU |-> IF k <= clr THEN 0 ELSE u[k]]
         /\ ph' = "done" /\ UNCHANGED <<x, n, iu, fu, carry, idx, clr>>
Next == Start \/ Unit \/ Carry \/ Clear
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(ph \in {"done", "over", "zero"})

-----------------------------------------------------------------------------
X == Val(x.u, 1)                                    \* in units of B^-x.fu
\* the value rounded half up, in units of b^-n (n < x.f)
Scale == Pow(b, D * x.fu)
Cut == Pow(b, D * x.fu - n)
Rounded == (2 * X + Cut) \div (2 * Cut)
\* the working value in units of b^-n, cleared below clr, with its carry
Cleared == [k \in 1..MaxU |-> IF k <= clr THEN 0 ELSE u[k]]
Work == Val(Cleared, 1) + carry * Pow(B, idx)
Expected == IF n >= 0 THEN Rounded * Pow(b, fu * D - n) ELSE Rounded * Pow(b, 0 - n)
Shrinks == n < x.f
Halfway == (ph \in {"carry", "clear"}) => Work = Expected
Fits(v, f) == LET RECURSIVE G(_)
                  G(w) == IF w = 0 THEN 0 ELSE 1 + G(w \div B)
              IN G(v) + f <= MaxU                   \* v: integral part
Right ==
  /\ (ph = "done" /\ Shrinks) => /\ Val(u, 1) = Expected
                                 /\ iu + fu <= MaxU /\ Lead(u, MaxU) <= iu + fu
  /\ (ph = "done" /\ ~Shrinks) => /\ Val(u, 1) = X * Pow(B, fu - x.fu)
                                  /\ iu + fu <= MaxU /\ Lead(u, MaxU) <= iu + fu
  /\ ph = "zero" => Rounded = 0
  /\ ph = "over" => ~Fits(Rounded \div Pow(b, IF n > 0 THEN n ELSE 0), Groups(IF n > 0 THEN n ELSE 0))

-----------------------------------------------------------------------------
(* export: D digits lifted to nine; the digit a place falls on varies with the decimal *)
Str == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE IntStr(_)
IntStr(k) == IF k < 0 THEN "-" \o IntStr(0 - k) ELSE IF k < 10 THEN Str[k + 1] ELSE IntStr(k \div 10) \o Str[(k % 10) + 1]
RECURSIVE Rep(_, _)
Rep(c, k) == IF k = 0 THEN "" ELSE c \o Rep(c, k - 1)
\* a place inside a unit (1..D-1) becomes one of 1..8
Inside == 1 + ((X + 3 * n + 100) % 8)
LiftPos(k) == IF k >= 0 THEN 9 * (k \div D) + (IF k % D = 0 THEN 0 ELSE Inside)
              ELSE 0 - (9 * ((0 - k) \div D) + (IF (0 - k) % D = 0 THEN 0 ELSE Inside))
\* digits of one unit, split where a rounding inside it looks: s digits above
Digit(d) == IF 2 * d < b THEN Str[d + 1] ELSE IF 2 * d = b THEN "5" ELSE Str[10 - (b - d) + 1]
\* the first s digits of the nine repeat the pattern of the upper digit, the others of the lower one
LiftUnit(w, s) ==
  LET hi == w \div Pow(b, D - 1)  lo == w % b
      up == IF hi = b - 1 THEN Rep("9", s) ELSE IF hi = 0 THEN Rep("0", s) ELSE Rep("0", s - 1) \o Digit(hi)
      dn == IF lo = b - 1 THEN Rep("9", 9 - s) ELSE IF lo = 0 THEN Rep("0", 9 - s)
            ELSE Digit(lo) \o (IF (w + n) % 2 = 0 THEN Rep("0", 8 - s) ELSE IF 2 * lo < b THEN Rep("9", 8 - s) ELSE Rep("0", 8 - s))
  IN up \o dn
SplitF == Inside
RECURSIVE IntPart(_)
IntPart(k) == IF k = 0 THEN "" ELSE LiftUnit(x.u[x.fu + k], 9 - (IF n < 0 THEN Inside ELSE 4)) \o IntPart(k - 1)
RECURSIVE FracPart(_)
FracPart(k) == IF k = 0 THEN "" ELSE LiftUnit(x.u[k], IF n >= 0 THEN Inside ELSE 4) \o FracPart(k - 1)
Text == (IF x.iu = 0 THEN "0" ELSE IntPart(x.iu)) \o (IF x.fu = 0 THEN "" ELSE "." \o FracPart(x.fu))
\* what distinguishes roundings: shape, place, kind of every unit, how far the carry went
Kind(w) == IF w = 0 THEN 0 ELSE IF w = B - 1 THEN 9 ELSE IF 2 * w < B THEN 1 ELSE IF 2 * w = B THEN 5 ELSE 6
View == IF PerPattern /\ ph # "start" THEN <<x.iu, x.fu, x.f % D, n, [k \in 1..Len(x.u) |-> Kind(x.u[k])], ph, carry, idx, iu, u[1] % b>> ELSE vars
Emit == (PerPattern /\ ph \in {"done", "over", "zero"}) =>
  PrintT("PROG parse 1 " \o Text \o ";rnd 2 1 " \o IntStr(LiftPos(n)) \o ";parse 3 -" \o Text \o ";rnd 4 3 " \o IntStr(LiftPos(n)))
=============================================================================
