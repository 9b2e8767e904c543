------------------------------- MODULE Divide -------------------------------
(***************************************************************************)
(* How the library frames a division or a remainder: which units the result   *)
(* has, where the first quotient unit goes, where it is found, where to stop.  *)
(* One quotient unit per step; how a single one is found by long division is    *)
(* LongDiv.  D digits of base b make a unit of base B.                          *)
(*                                                                          *)
(*   x, y     the operands: iu integral and fu fractional units (leading ones   *)
(*            may be zero), f fractional digits, u least significant first        *)
(*   op, n    "div" or "rem"; the extra precision asked for                       *)
(*   w        the dividend, with units appended below                             *)
(*   off      units appended                                                       *)
(*   rem      value of the part of the dividend already brought down, reduced       *)
(*   i, j     next unit of w to bring down; unit of the result it gives              *)
(*   r        the result: iu, fu, u                                                  *)
(*                                                                          *)
(* Invariants: Right says that the result is the truncated quotient at the        *)
(* scale the properties state, or the remainder, and that overflow is answered     *)
(* exactly when they say; Below and Steps that the machine never leaves its units.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS b, D, MaxU, MaxFU, MU, Incrs, Ops,
          PerPattern         \* TRUE: programs are exported, one per pattern
VARIABLES x, y, op, n, w, off, rem, i, j, r, ph
vars == <<x, y, op, n, w, off, rem, i, j, r, ph>>

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
B == Pow(b, D)
RECURSIVE Val(_, _)
Val(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + B * Val(s, k + 1)
Groups(d) == (d + D - 1) \div D
MinI(p, q) == IF p <= q THEN p ELSE q
MaxI(p, q) == IF p >= q THEN p ELSE q
RECURSIVE NDig(_)
NDig(v) == IF v = 0 THEN 0 ELSE 1 + NDig(v \div b)
Zeros(k) == [q \in 1..k |-> 0]
RECURSIVE Lead(_, _)
Lead(s, k) == IF k = 0 THEN 0 ELSE IF s[k] # 0 THEN k ELSE Lead(s, k - 1)
Top(z) == Lead(z.u, Len(z.u))                      \* units up to the leading one that is not zero
Trimmed(s, fu) == MaxI(Lead(s, Len(s)) - fu, 0)
Clean(s, f) == f % D # 0 => s[1] % Pow(b, D - (f % D)) = 0
Nums == UNION { UNION { {[iu |-> k, fu |-> Groups(f), f |-> f, u |-> s] : s \in {t \in [1..(k + Groups(f)) -> 0..(B - 1)] : Clean(t, f)}}
                        : f \in {g \in 0..(MU * D) : k + Groups(g) \in 1..MU} } : k \in 0..MU }
None == [iu |-> 0, fu |-> 0, u |-> <<>>]

Init == /\ \E a \in Nums : Top(a) > 0 /\ x = a
        /\ y = x /\ op \in Ops /\ n \in Incrs /\ (op = "rem" => n = 0)
        /\ w = <<>> /\ off = 0 /\ rem = 0 /\ i = 0 /\ j = 0 /\ r = None /\ ph = "pick"
Pick == /\ ph = "pick" /\ \E c \in Nums : Top(c) > 0 /\ y' = c
        /\ ph' = "start" /\ UNCHANGED <<x, op, n, w, off, rem, i, j, r>>

M == Top(y)
Divisor == Val(y.u, 1)                              \* of its M units
\* the leading units compared, zeros below the shorter one
RECURSIVE Leading(_, _)
Leading(p, q) == IF q = 0 THEN TRUE
                 ELSE IF p = 0 THEN y.u[q] = 0 /\ Leading(0, q - 1)
                 ELSE IF x.u[p] # y.u[q] THEN x.u[p] > y.u[q] ELSE Leading(p - 1, q - 1)
Shift == IF Leading(Top(x), M) THEN 0 ELSE -1
\* digits up to the leading one
Prec(z) == (Top(z) - 1) * D + NDig(z.u[Top(z)])
Down(k) == IF k >= 1 /\ k <= Len(w) THEN w[k] ELSE 0

\* what is brought down before the first quotient unit: the M-1 leading units, or M of them
Brought(full, k) == Val(SubSeq(full, Len(full) - k + 1, Len(full)), 1)

StartDiv ==
  /\ op = "div"
  /\ LET given == (D * x.fu - x.f) + (D * y.fu - y.f)
         fu0 == MinI(Groups(D * x.fu + D * y.fu + MaxI(n - given, 0)), MaxFU)
         digits == (Prec(x) - D * x.fu) - (Prec(y) - D * y.fu) + (IF Shift = 0 THEN 1 ELSE 0)
         iu == IF digits > 0 THEN Groups(digits) ELSE 0
         fu == MinI(fu0, MaxU - iu)
         first == IF digits > 0 THEN iu + fu - 1 ELSE fu - Groups(1 - digits)    \* from 0
         more == iu + fu + M - 1
         full == Zeros(more) \o SubSeq(x.u, 1, Top(x))
         k == IF Shift = 0 THEN M - 1 ELSE M
     IN IF iu > MaxU THEN ph' = "over" /\ UNCHANGED <<w, off, rem, i, j, r>>
        ELSE /\ w' = full /\ off' = more
             /\ rem' = Brought(full, k) /\ i' = Len(full) - k
             /\ j' = first /\ r' = [iu |-> iu, fu |-> fu, u |-> Zeros(iu + fu)]
             /\ ph' = "unit"
  /\ UNCHANGED <<x, y, op, n>>

F == MaxI(x.fu, y.fu)
X == Val(x.u, 1) * Pow(B, F - x.fu)
Y == Val(y.u, 1) * Pow(B, F - y.fu)
StartRem ==
  /\ op = "rem"
  /\ IF X < Y
     THEN LET iu == IF y.fu > x.fu THEN MinI(x.iu, MaxU - y.fu) ELSE x.iu IN
          /\ r' = [iu |-> iu, fu |-> F, u |-> Zeros(F - x.fu) \o SubSeq(x.u, 1, x.fu + iu)]
          /\ ph' = "done" /\ UNCHANGED <<w, off, rem, i, j>>
     ELSE IF X = Y
     THEN r' = None /\ ph' = "done" /\ UNCHANGED <<w, off, rem, i, j>>
     ELSE LET full == Zeros(F - x.fu) \o SubSeq(x.u, 1, Top(x))
              k == IF Shift = 0 THEN M - 1 ELSE M
          IN /\ w' = full /\ off' = F - x.fu
             /\ rem' = Brought(full, k) /\ i' = Len(full) - k
             /\ j' = Len(full) - k - 1 - (F - y.fu)      \* quotient units still to be found, less one
             /\ r' = None /\ ph' = "unit"
  /\ UNCHANGED <<x, y, op, n>>
Start == ph = "start" /\ (StartDiv \/ StartRem)

Unit ==
  /\ ph = "unit"
  /\ IF j >= 0
     THEN LET t == rem * B + Down(i)  q == t \div Divisor IN
          /\ rem' = t - q * Divisor
          /\ r' = IF op = "div" THEN [r EXCEPT !.u[j + 1] = q] ELSE r
          /\ i' = i - 1 /\ j' = j - 1 /\ UNCHANGED ph
     ELSE /\ ph' = "done" /\ UNCHANGED <<rem, i, j>>
          /\ r' = IF op = "div" THEN [r EXCEPT !.iu = Trimmed(r.u, r.fu)]
                  \* the rest of the dividend stays below what is left
                  ELSE LET v == rem * Pow(B, MaxI(i, 0)) + Val(SubSeq(w, 1, MaxI(i, 0)), 1)
                           u == [k \in 1..(2 * MU) |-> (v \div Pow(B, k - 1)) % B]
                       IN [iu |-> Trimmed(u, F), fu |-> F, u |-> u]
  /\ UNCHANGED <<x, y, op, n, w, off>>
Next == Pick \/ Start \/ Unit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* as the properties state it
QuotAt(fu) == (Val(x.u, 1) * Pow(B, fu + y.fu)) \div (Val(y.u, 1) * Pow(B, x.fu))
WantIU == Groups(NDig(QuotAt(0)))
WantFU == LET given == (D * x.fu - x.f) + (D * y.fu - y.f)
              more == IF n > given THEN n - given ELSE 0
          IN MinI(MinI(Groups(D * x.fu + D * y.fu + more), MaxFU), MaxU - WantIU)
Right ==
  /\ (ph = "over") => op = "div" /\ WantIU > MaxU
  /\ (ph = "done" /\ op = "div") =>
        /\ WantIU <= MaxU
        /\ r.fu = WantFU
        /\ Val(r.u, 1) = QuotAt(r.fu)
        /\ r.iu + r.fu <= MaxU /\ r.iu >= WantIU
  /\ (ph = "done" /\ op = "rem") =>
        /\ (r # None => r.fu = F /\ Val(r.u, 1) = X % Y)
        /\ (r = None => X % Y = 0)
        /\ r.iu + r.fu <= MaxU /\ Lead(r.u, Len(r.u)) <= r.iu + r.fu
Below == ph = "unit" => rem < Divisor
Steps == ph = "unit" => (op = "div" => i >= j - r.fu /\ (j >= 0 => i >= 1)) /\ (op = "rem" => i >= 0)

-----------------------------------------------------------------------------
(* export: one program per pattern of shapes; a unit is lifted to nine digits that keep its order *)
Str == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE IntStr(_)
IntStr(k) == IF k < 10 THEN Str[k + 1] ELSE IntStr(k \div 10) \o Str[(k % 10) + 1]
\* b = 2, D = 2: zero, a unit with leading zeros, one of nine digits, all nines
Lift(v) == CASE v = 0 -> "000000000" [] v = 1 -> "000004096" [] v = 2 -> "500000000" [] v = 3 -> "999999999"
RECURSIVE Cat(_, _, _)
Cat(s, k, stop) == IF k <= stop THEN "" ELSE Lift(s[k]) \o Cat(s, k - 1, stop)
LastDigits(z) == IF z.f % D = 0 THEN 0 ELSE 4      \* digits missing in the last fractional unit
CutLast(v) == CASE v = 0 -> "00000" [] v = 1 -> "00004" [] v = 2 -> "50000" [] v = 3 -> "99999"
FracStr(z) == IF z.fu = 0 THEN "" ELSE "." \o (IF z.f % D = 0 THEN Cat(z.u, z.fu, 0) ELSE Cat(z.u, z.fu, 1) \o CutLast(z.u[1]))
Text(z) == (IF z.iu = 0 THEN "0" ELSE Cat(z.u, z.iu + z.fu, z.fu)) \o FracStr(z)
View == IF PerPattern /\ ph \in {"unit", "done", "over"}
        THEN <<op, n, x.iu, x.fu, x.f % D, y.iu, y.fu, y.f % D, Top(x), M, Shift, x.u[Top(x)], y.u[M], ph, j, r.iu, r.fu,
               IF ph = "done" THEN Lead(r.u, Len(r.u)) ELSE 0, IF ph = "unit" THEN <<x, y>> ELSE <<>> >>
        ELSE vars
Emit == (PerPattern /\ ph \in {"done", "over"}) =>
  PrintT("PROG parse 1 " \o Text(x) \o ";parse 2 -" \o Text(y) \o
         (IF op = "div" THEN ";div 3 1 2 " \o IntStr(5 * n) ELSE ";rem 3 1 2"))
=============================================================================
