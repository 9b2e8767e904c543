--------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* The values of the library and the meaning of every public operation.     *)
(*                                                                          *)
(* A decimal is  (-1)^neg * c * 10^-f  with c a natural (BigNat), f its     *)
(* number of fractional digits (scale) and p its declared integral digits   *)
(* (padding: p may exceed what the value needs).  Meaning-giving operators  *)
(* never look at p: that the code behaves the same whatever the padding is  *)
(* one of the properties.                                                   *)
(*                                                                          *)
(* Operations are given as "expected outcome" records                       *)
(*     [out |-> code, neg |-> , c |-> , f |-> ]                             *)
(* where the outcome is determined, and as relations where it is not.       *)
(***************************************************************************)
EXTENDS BigNat

\* outcome codes, as in the code's error enumeration
OK       == 0
ESyntax  == 1       \* conversion syntax error
EDivZero == 2
EOver    == 3
ERange   == 4       \* exceeds range of conversion target
Panic    == 9
Hang     == 8

G         == 9      \* digits per group
MaxGroups == 9      \* groups of storage
MaxDigits == 65     \* digits accepted by parsing
MaxNegExp == 30
MaxFracGroups == 4  \* limit of computed scales (36 digits)

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Groups(d) == (d + G - 1) \div G

IsZero(x)  == x.c = NZero
SigInt(x)  == LET n == NDigits(x.c) IN IF n > x.f THEN n - x.f ELSE 0   \* integral digits of the value
IntG(x)    == Groups(SigInt(x))
FracG(x)   == Groups(x.f)
At(x, f)   == NScale(x.c, f - x.f)         \* coefficient at a scale f >= x.f
NegIf(b, c) == b /\ c # NZero              \* sign of a result: zero is never negative

\* signed magnitudes <<neg, nat>>
SAdd(s, t) == IF s[1] = t[1] THEN <<s[1], NAdd(s[2], t[2])>>
              ELSE IF NCmp(s[2], t[2]) >= 0 THEN <<s[1], NSub(s[2], t[2])>>
              ELSE <<t[1], NSub(t[2], s[2])>>
SCmp(s, t) == IF s[2] = NZero /\ t[2] = NZero THEN 0
              ELSE IF s[1] /\ s[2] # NZero
                   THEN (IF t[1] /\ t[2] # NZero THEN NCmp(t[2], s[2]) ELSE -1)
                   ELSE (IF t[1] /\ t[2] # NZero THEN 1 ELSE NCmp(s[2], t[2]))

\* comparison of values
CmpVal(x, y) == LET f == MaxOf(x.f, y.f) IN SCmp(<<x.neg, At(x, f)>>, <<y.neg, At(y, f)>>)
SameVal(x, y) == CmpVal(x, y) = 0
\* same value and same scale (sign of zero included)
Same(x, y) == x.neg = y.neg /\ x.f = y.f /\ x.c = y.c

Res(n, c, f) == [out |-> OK, neg |-> NegIf(n, c), c |-> c, f |-> f]
Fail(code)   == [out |-> code, neg |-> FALSE, c |-> NZero, f |-> 0]
Neg(x)       == [x EXCEPT !.neg = ~x.neg]

-----------------------------------------------------------------------------
(* Addition and subtraction *)

\* the exact sum at the larger scale
AddExact(x, y) == LET f == MaxOf(x.f, y.f)
                      s == SAdd(<<x.neg, At(x, f)>>, <<y.neg, At(y, f)>>)
                  IN Res(s[1], s[2], f)
\* storage needed: the widest integral part and the widest fractional part, in groups
AddOut(x, y) == IF IsZero(x) \/ IsZero(y) THEN OK
                ELSE IF MaxOf(IntG(AddExact(x, y)), MaxOf(IntG(x), IntG(y))) + MaxOf(FracG(x), FracG(y))
                          > MaxGroups THEN EOver ELSE OK
AddRes(x, y) == IF AddOut(x, y) # OK THEN Fail(AddOut(x, y))
                ELSE IF IsZero(x) THEN Res(y.neg, y.c, y.f)
                ELSE IF IsZero(y) THEN Res(x.neg, x.c, x.f)
                ELSE AddExact(x, y)
SubRes(x, y) == AddRes(x, Neg(y))
\* scales allowed when an operand is zero
AddScaleOk(x, y, f) ==
  IF IsZero(x) /\ IsZero(y) THEN f \in {x.f, y.f}
  ELSE IF IsZero(x) THEN f = y.f
  ELSE IF IsZero(y) THEN f = x.f
  ELSE f = MaxOf(x.f, y.f)

-----------------------------------------------------------------------------
(* Multiplication *)

MulIG(x, y) == Groups(SigInt(x) + SigInt(y))
MulFG(x, y) == MinOf(MinOf(Groups(x.f + y.f), MaxFracGroups), MaxGroups - MulIG(x, y))
MulOut(x, y) == IF IsZero(x) \/ IsZero(y) THEN OK
                ELSE IF MulIG(x, y) > MaxGroups THEN EOver ELSE OK
MulScale(x, y) == MinOf(x.f + y.f, G * MulFG(x, y))
MulExact(x, y) == MulScale(x, y) = x.f + y.f      \* no digit is dropped
MulSlack == 20                                     \* units in the last kept place
\* r is an allowed product (both factors non-zero, no overflow)
MulOk(x, y, r) ==
  LET full == NMul(x.c, y.c)
      f    == MulScale(x, y)
      drop == x.f + y.f - f
      kept == NScale(r.c, drop)
      sgn  == x.neg # y.neg
  IN /\ r.f = f
     /\ r.neg = NegIf(sgn, r.c)
     /\ IF drop = 0 THEN r.c = full
        ELSE /\ NLeq(kept, full)
             /\ NLt(full, NAdd(kept, NScale(NOfInt(MulSlack), drop)))
\* the product truncated to the kept digits (used where the specification has to choose one)
MulTrunc(x, y) ==
  LET f == MulScale(x, y) IN
  IF IsZero(x) \/ IsZero(y) THEN Res(FALSE, NZero, 0)
  ELSE IF MulOut(x, y) # OK THEN Fail(EOver)
  ELSE Res(x.neg # y.neg, NDiv(NMul(x.c, y.c), NPow10(x.f + y.f - f)), f)

-----------------------------------------------------------------------------
(* Division *)

Ext(f) == G * Groups(f)
\* scale in groups before the storage limit
DivFG(x, y, incr) ==
  LET given == (Ext(x.f) - x.f) + (Ext(y.f) - y.f)
      more  == IF incr > given THEN incr - given ELSE 0
  IN IF more > 100 THEN MaxFracGroups
     ELSE MinOf(Groups(Ext(x.f) + Ext(y.f) + more), MaxFracGroups)
\* |x| / |y| * 10^f truncated
QuotAt(x, y, f) == NDiv(NScale(x.c, f + y.f), NScale(y.c, x.f))
DivRes(x, y, incr) ==
  IF IsZero(y) THEN Fail(EDivZero)
  ELSE IF IsZero(x) THEN Res(FALSE, NZero, 0)
  ELSE LET ig == Groups(NDigits(QuotAt(x, y, 0)))
       IN IF ig > MaxGroups THEN Fail(EOver)
          ELSE LET f == G * MinOf(DivFG(x, y, incr), MaxGroups - ig)
               IN Res(x.neg # y.neg, QuotAt(x, y, f), f)

(* Remainder *)
RemRes(x, y) ==
  IF IsZero(y) THEN Fail(EDivZero)
  ELSE LET f == MaxOf(x.f, y.f)
           m == NMod(At(x, f), At(y, f))
       IN Res(x.neg, m, f)

-----------------------------------------------------------------------------
(* Rounding *)

MaxScale(x) == G * (MaxGroups - IntG(x))     \* largest scale the storage leaves
HalfUpDiv(c, k) ==                            \* c / 10^k, half up
  IF k = 0 THEN c ELSE NDiv(NAdd(c, NMul(<<5>>, NPow10(k-1))), NPow10(k))
RoundRes(x, n) ==
  IF n >= x.f THEN LET f == MinOf(n, MaxScale(x)) IN Res(x.neg, At(x, f), f)
  ELSE IF n >= 0 THEN Res(x.neg, HalfUpDiv(x.c, x.f - n), n)
  ELSE IF n < -200 THEN Res(FALSE, NZero, 0)
  ELSE Res(x.neg, NScale(HalfUpDiv(x.c, x.f - n), -n), 0)
RoundFits(x, n) == LET r == RoundRes(x, n) IN IntG(r) + FracG(r) <= MaxGroups

-----------------------------------------------------------------------------
(* Integers *)

I64Max == NOfDigits(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
I64MinMag == NAdd(I64Max, NOne)
U64Max == NOfDigits(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
IntVal(neg, n) == [neg |-> neg, c |-> n, f |-> 0]
InI64(x) == /\ CmpVal(x, IntVal(FALSE, I64Max)) <= 0
            /\ CmpVal(x, IntVal(TRUE, I64MinMag)) >= 0
InU64(x) == /\ ~(x.neg /\ ~IsZero(x))
            /\ CmpVal(x, IntVal(FALSE, U64Max)) <= 0
ToIntRes(x, inRange) == IF inRange THEN LET r == RoundRes(x, 0) IN IF x.f = 0 THEN Res(x.neg, x.c, 0) ELSE r
                        ELSE Fail(ERange)

-----------------------------------------------------------------------------
(* Text.  Characters are byte codes. *)

Chr == [minus |-> 45, plus |-> 43, dot |-> 46, zero |-> 48, nine |-> 57, e |-> 101, E |-> 69]
IsDigit(ch) == ch >= 48 /\ ch <= 57
DigitsText(c, n) == LET d == NToDigits(c, n) IN [i \in 1..n |-> d[i] + 48]

SignText(x) == IF x.neg THEN <<45>> ELSE <<>>
IntText(x)  == LET q == NDiv(x.c, NPow10(x.f)) IN IF q = NZero THEN <<48>> ELSE DigitsText(q, NDigits(q))
FracText(x) == DigitsText(x.c, x.f)          \* the x.f low digits
FullText(x) == SignText(x) \o IntText(x) \o (IF x.f = 0 THEN <<>> ELSE <<46>> \o FracText(x))
Zeros(n)    == [i \in 1..n |-> 48]
TextAt(x, n) ==
  SignText(x) \o IntText(x) \o
    (IF n = 0 THEN <<>>
     ELSE <<46>> \o (IF n <= x.f THEN SubSeq(FracText(x), 1, n) ELSE FracText(x) \o Zeros(n - x.f)))
Printed(x, n) == IF n < 0 THEN FullText(x) ELSE TextAt(x, n)
PrintedDigits(x) == MaxOf(SigInt(x), 1) + x.f

\* first position >= i holding e or E, or Len(s)+1
RECURSIVE FindE(_, _)
FindE(s, i) == IF i > Len(s) THEN i ELSE IF s[i] = 101 \/ s[i] = 69 THEN i ELSE FindE(s, i+1)
\* leading zeros of a digit string starting at i (keeping the last character)
RECURSIVE SkipZeros(_, _)
SkipZeros(s, i) == IF i < Len(s) /\ s[i] = 48 THEN SkipZeros(s, i+1) ELSE i

\* the small number written by at most three digit characters
RECURSIVE SmallNum(_, _, _)
SmallNum(s, i, acc) == IF i > Len(s) THEN acc ELSE SmallNum(s, i+1, acc * 10 + s[i] - 48)

\* [ok, neg, digits (values), fd (fractional ones), e (exponent)] of a text by the grammar
\*   sign? (digit | .)* [ (e|E) sign? digit+ ]     with one point at most, one digit at least
Scan(s) ==
  LET n   == Len(s)
      i0  == IF n > 0 /\ s[1] \in {43, 45} THEN 2 ELSE 1
      ie  == FindE(s, i0)
      man == SubSeq(s, i0, ie - 1)
      dots == {i \in 1..Len(man) : man[i] = 46}
      digs == SelectSeq(man, IsDigit)
      manOk == /\ \A i \in 1..Len(man) : IsDigit(man[i]) \/ man[i] = 46
               /\ \A i, j \in dots : i = j
               /\ Len(digs) >= 1
      hasE == ie <= n
      i1  == IF hasE /\ ie < n /\ s[ie+1] \in {43, 45} THEN ie + 2 ELSE ie + 1
      expOk == ~hasE \/ (i1 <= n /\ \A i \in i1..n : IsDigit(s[i]))
      iz  == SkipZeros(s, i1)
      esz == n - iz + 1                          \* significant exponent digits
      emag == IF ~hasE THEN 0 ELSE
              IF esz > 3 THEN 1000
              ELSE SmallNum(SubSeq(s, iz, n), 1, 0)
      eneg == hasE /\ ie < n /\ s[ie+1] = 45
  IN IF ~(manOk /\ expOk) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, neg |-> n > 0 /\ s[1] = 45,
           digs |-> [i \in 1..Len(digs) |-> digs[i] - 48],
           fd |-> IF dots = {} THEN 0 ELSE Len(man) - (CHOOSE i \in dots : TRUE),
           e |-> IF eneg THEN 0 - emag ELSE emag]

\* the outcome of parsing s
ParseRes(s) ==
  LET t == Scan(s) IN
  IF ~t.ok THEN Fail(ESyntax)
  ELSE IF t.e > MaxDigits \/ t.e < -MaxNegExp THEN Fail(ESyntax)
  ELSE LET fr  == t.fd - t.e
           d   == Len(t.digs)
           tot == IF fr <= 0 THEN d - fr ELSE MaxOf(d, fr)
       IN IF tot > MaxDigits THEN Fail(ESyntax)
          ELSE LET m == NOfDigits(t.digs)
               IN IF fr >= 0 THEN Res(t.neg, m, fr) ELSE Res(t.neg, NScale(m, -fr), 0)
=============================================================================
