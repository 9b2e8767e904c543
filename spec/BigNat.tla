------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size for TLC (whose own integers are 32-bit).     *)
(* A natural is its base-10^4 representation: a sequence of limbs, least    *)
(* significant first, without leading (i.e. trailing in the sequence)       *)
(* zeros; <<>> is zero.  The representation is canonical, so equality of    *)
(* naturals is equality of sequences.                                       *)
(*                                                                          *)
(* The definitions below are the meaning.  override/BigNat.java replaces    *)
(* some of them by faster code; MC_BigNat checks that the two agree         *)
(* (PureXxx are aliases that are never overridden).                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

LB == 10000                 \* limb base
LD == 4                     \* decimal digits per limb

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

IsBigNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(LB-1)
               /\ Len(a) > 0 => a[Len(a)] # 0

RECURSIVE PureNorm(_)
PureNorm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN PureNorm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE PureOfInt(_)
PureOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o PureOfInt(n \div LB)

MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > MaxLen(a, b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + carry
       IN <<t % LB>> \o AddFrom(a, b, i+1, t \div LB)
PureAdd(a, b) == AddFrom(a, b, 1, 0)

\* comparison: -1, 0 or 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i-1)
PureCmp(a, b) == IF Len(a) < Len(b) THEN -1
                 ELSE IF Len(a) > Len(b) THEN 1
                 ELSE CmpFrom(a, b, Len(a))

\* difference, defined for b <= a
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - Limb(b, i) - borrow
       IN IF t < 0 THEN <<t + LB>> \o SubFrom(a, b, i+1, 1)
                   ELSE <<t>> \o SubFrom(a, b, i+1, 0)
PureSub(a, b) == PureNorm(SubFrom(a, b, 1, 0))

\* product with a small number k < LB
RECURSIVE SmallFrom(_, _, _, _)
SmallFrom(a, k, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == a[i] * k + carry IN <<t % LB>> \o SmallFrom(a, k, i+1, t \div LB)
PureMulSmall(a, k) == IF k = 0 THEN <<>> ELSE SmallFrom(a, k, 1, 0)

\* Horner over the limbs of b
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET r == MulFrom(a, b, i+1)
       IN PureAdd(PureMulSmall(a, b[i]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
PureMul(a, b) == MulFrom(a, b, 1)

\* largest q in lo..hi with b*q <= a
RECURSIVE QDigit(_, _, _, _)
QDigit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF PureCmp(PureMulSmall(b, mid), a) <= 0 THEN QDigit(a, b, mid, hi)
                                                   ELSE QDigit(a, b, lo, mid-1)
\* <<quotient, remainder>> of a by b # 0, limb by limb from the top
RECURSIVE DivFrom(_, _, _)
DivFrom(a, b, i) ==      \* quotient limbs i.. and remainder of a[i..]
  IF i > Len(a) THEN << <<>>, <<>> >>
  ELSE LET up == DivFrom(a, b, i+1)
           cur == PureNorm(<<a[i]>> \o up[2])
           q == QDigit(cur, b, 0, LB-1)
       IN << <<q>> \o up[1], PureSub(cur, PureMulSmall(b, q)) >>
PureDivMod(a, b) == LET r == DivFrom(a, b, 1) IN << PureNorm(r[1]), r[2] >>

Small10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000
PurePow10(k) == [i \in 1..(k \div LD) |-> 0] \o <<Small10(k % LD)>>

SmallDigits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
\* number of decimal digits, 0 for zero
PureDigits(a) == IF a = <<>> THEN 0 ELSE LD * (Len(a)-1) + SmallDigits(a[Len(a)])

\* decimal digit number i (0 = least significant)
DigitAt(a, i) == (Limb(a, (i \div LD) + 1) \div Small10(i % LD)) % 10
\* the n low decimal digits, most significant first
PureToDigits(a, n) == [j \in 1..n |-> DigitAt(a, n - j)]
\* the number written by a sequence of decimal digits, most significant first
RECURSIVE PureOfDigitsAcc(_, _, _)
PureOfDigitsAcc(s, i, acc) == IF i > Len(s) THEN acc
                              ELSE PureOfDigitsAcc(s, i+1, PureAdd(PureMulSmall(acc, 10), PureOfInt(s[i])))
PureOfDigits(s) == PureOfDigitsAcc(s, 1, <<>>)

-----------------------------------------------------------------------------
\* the operators used by the specifications (overridden by BigNat.java)
NOfInt(n)       == PureOfInt(n)
NAdd(a, b)      == PureAdd(a, b)
NSub(a, b)      == PureSub(a, b)
NCmp(a, b)      == PureCmp(a, b)
NMul(a, b)      == PureMul(a, b)
NDivMod(a, b)   == PureDivMod(a, b)
NPow10(k)       == PurePow10(k)
NDigits(a)      == PureDigits(a)
NToDigits(a, n) == PureToDigits(a, n)
NOfDigits(s)    == PureOfDigits(s)

NZero == <<>>
NOne  == <<1>>
NIsZero(a)  == a = <<>>
NLeq(a, b)  == NCmp(a, b) <= 0
NLt(a, b)   == NCmp(a, b) < 0
NScale(a, k) == IF a = <<>> THEN a ELSE NMul(a, NPow10(k))      \* a * 10^k
NDiv(a, b)  == NDivMod(a, b)[1]
NMod(a, b)  == NDivMod(a, b)[2]
=============================================================================
