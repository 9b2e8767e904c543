------------------------------- MODULE LongDiv -------------------------------
(***************************************************************************)
(* The long division of the library (Knuth's algorithm D on units) as a      *)
(* machine, at a base B small enough to run through all operands.            *)
(*                                                                          *)
(*   a, b   dividend and divisor (units, least significant first, without    *)
(*          leading zero units; the divisor has at least two)                *)
(*   w      the normalised dividend, extended by Extra zero units below      *)
(*   v      the normalised divisor                                           *)
(*   i      unit of w under the quotient unit being computed                 *)
(*   q      quotient units found so far, most significant first              *)
(*   pat    per quotient unit: corrections of the trial value, add-back,      *)
(*          the top unit of its product, and its kind (zero, top, between)    *)
(*                                                                          *)
(* Next computes one quotient unit.  Checked: the trial value is never more   *)
(* than one too large after correction, the add-back repairs exactly that,    *)
(* the partial remainder stays below the divisor, and at the end q and the    *)
(* remainder are those of plain division.  Behaviours are exported as          *)
(* programs with the units lifted to base 10^9, one per pattern (View).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS B, NA, NB, Extra,       \* units of the dividend and of the divisor at most, extension
          PerPattern              \* TRUE: one behaviour per pattern; FALSE: all of them
VARIABLES a, b, w, v, i, q, pat
vars == <<a, b, w, v, i, q, pat>>

RECURSIVE Val(_, _)
Val(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + B * Val(s, k + 1)
RECURSIVE ToUnits(_)
ToUnits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o ToUnits(n \div B)
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE B * Pow(k - 1)
Pad(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE 0]
Zeros(n) == [k \in 1..n |-> 0]
NoLead(s) == s[Len(s)] # 0

Dividends == UNION { {s \in [1..k -> 0..(B - 1)] : NoLead(s)} : k \in 1..NA }
Divisors  == UNION { {s \in [1..k -> 0..(B - 1)] : NoLead(s)} : k \in 2..NB }

Norm(y) == B \div (y[Len(y)] + 1)
\* D1: both multiplied so that the leading unit of the divisor is at least B/2
Init == \E x \in Dividends, y \in Divisors, ex \in 0..Extra :
  /\ a = x /\ b = y
  /\ LET full == Zeros(ex) \o x
         n == Len(full)
     IN /\ n >= Len(y)
        /\ w = Pad(ToUnits(Val(full, 1) * Norm(y)), n + 1)
        /\ v = Pad(ToUnits(Val(y, 1) * Norm(y)), Len(y))
        /\ i = n                               \* w[i+1], w[i], w[i-1] give the trial value
  /\ q = <<>> /\ pat = <<>>

M == Len(v)
\* D3: trial value and its correction
RECURSIVE Correct(_, _, _, _, _, _)
Correct(qh, rh, d0, d1, u2, n) ==
  IF qh >= B \/ qh * d1 > rh * B + u2 THEN Correct(qh - 1, rh + d0, d0, d1, u2, n + 1) ELSE <<qh, n>>
\* D4: w[from..from+m] - qh * v, unit by unit; a borrow left at the top is returned
RECURSIVE SubMul(_, _, _, _, _)
SubMul(ws, qh, k, carry, borrow) ==
  IF k > Len(ws) THEN [u |-> <<>>, borrow |-> borrow]
  ELSE LET p == (IF k <= M THEN qh * v[k] ELSE 0) + carry
           t == ws[k] - (p % B) - borrow
           r == SubMul(ws, qh, k + 1, p \div B, IF t < 0 THEN 1 ELSE 0)
       IN [u |-> <<IF t < 0 THEN t + B ELSE t>> \o r.u, borrow |-> r.borrow]
RECURSIVE AddBack(_, _, _)
AddBack(ws, k, carry) ==
  IF k > Len(ws) THEN <<>>
  ELSE LET t == ws[k] + (IF k <= M THEN v[k] ELSE 0) + carry
       IN <<t % B>> \o AddBack(ws, k + 1, t \div B)

Step ==
  /\ i >= M
  /\ LET d0 == v[M]  d1 == v[M - 1]
         u == w[i + 1] * B + w[i]
         u2 == w[i - 1]
         c == Correct(u \div d0, u % d0, d0, d1, u2, 0)
         lo == i - M + 1
         s == SubMul(SubSeq(w, lo, i + 1), c[1], 1, 0, 0)
         back == s.borrow = 1
         r == IF back THEN AddBack(s.u, 1, 0) ELSE s.u
     IN /\ w' = [k \in 1..Len(w) |-> IF k >= lo /\ k <= i + 1 THEN r[k - lo + 1] ELSE w[k]]
        /\ q' = Append(q, IF back THEN c[1] - 1 ELSE c[1])
        /\ pat' = Append(pat, <<c[2], back, (c[1] * Val(v, 1)) \div Pow(M), IF c[1] = 0 THEN 0 ELSE IF c[1] = B - 1 THEN 2 ELSE 1>>)
  /\ i' = i - 1
  /\ UNCHANGED <<a, b, v>>
Next == Step
Spec == Init /\ [][Next]_vars

Done == i < M
RECURSIVE QVal(_, _)
QVal(s, k) == IF k = 0 THEN 0 ELSE s[k] + B * QVal(s, k - 1)
Ex == Len(w) - 1 - Len(a)                       \* zero units appended
\* what is left above and at the current position is less than the divisor
PartialRemainder == Val(SubSeq(w, i - M + 2, Len(w)), 1) < Val(v, 1)
QuotientUnits == \A k \in 1..Len(q) : q[k] \in 0..(B - 1)
FewCorrections == \A k \in 1..Len(pat) : pat[k][1] <= 3
Result == Done => /\ QVal(q, Len(q)) = (Val(a, 1) * Pow(Ex)) \div Val(b, 1)
                  /\ Val(w, 1) = Norm(b) * ((Val(a, 1) * Pow(Ex)) % Val(b, 1))

-----------------------------------------------------------------------------
(* export *)
Str == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE IntStr(_)
IntStr(k) == IF k < 10 THEN Str[k + 1] ELSE IntStr(k \div 10) \o Str[(k % 10) + 1]
RECURSIVE Rep(_)
Rep(k) == IF k = 0 THEN "" ELSE "0" \o Rep(k - 1)
\* a unit of base B stands for one of base 10^9 at the same distance from 0, the middle or the top
Lift(d) == IF 2 * d < B THEN d ELSE IF 2 * d = B THEN 500000000 ELSE 1000000000 - (B - d)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
Nine(n) == Rep(9 - Digits(n)) \o IntStr(n)
RECURSIVE LiftStr(_, _)
LiftStr(s, k) == IF k = 0 THEN "" ELSE (IF k = Len(s) THEN IntStr(Lift(s[k])) ELSE Nine(Lift(s[k]))) \o LiftStr(s, k - 1)
Text(s) == LiftStr(s, Len(s))
View == IF PerPattern THEN <<Len(a), Len(b), Ex, i, pat, IF Done THEN <<>> ELSE <<a, b>> >> ELSE vars
\* with fractional units as well: the point moved by a number of places that depends on the operands
Emit == Done => LET e == (Val(a, 1) + 2 * Val(b, 1)) % 30 IN
  PrintT("PROG parse 1 " \o Text(a) \o ";parse 2 " \o Text(b)
    \o ";div 3 1 2 " \o IntStr(9 * Ex) \o ";rem 3 1 2;parse 4 -" \o Text(a) \o "e-" \o IntStr(e)
    \o ";div 5 4 2 4;rem 5 4 2;parse 6 -" \o Text(b) \o "e-" \o IntStr(29 - e) \o ";div 5 4 6 0;rem 5 4 6;div 5 1 6 4;rem 5 1 6")
=============================================================================
