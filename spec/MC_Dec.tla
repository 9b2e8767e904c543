------------------------------- MODULE MC_Dec --------------------------------
(***************************************************************************)
(* The specification against itself: laws that the operators of Dec must     *)
(* satisfy, on every pair of numbers of a family.  What is expected of the   *)
(* implementation (FxdProps) is stated with these operators, so a mistake in *)
(* one of them shows here as a broken law.                                   *)
(***************************************************************************)
EXTENDS Lits, TLC, Randomization
CONSTANTS Pal, MI, MF, Cuts, Incrs, Ns, Total, Sample
VARIABLES x, y

NsSmall == {-10, -9, -1, 0, 4, 5, 9, 12}
NsWide == {-82, -81, -46, -45, -27, -10, -9, -8, -1, 0, 1, 8, 9, 10, 18, 27, 36, 45, 80, 81, 128}
\* all numbers of the family, or so many of each shape (i groups before the point, f after)
All == {LitDec(L) : L \in LitSet(Pal, MI, MF, Cuts, {0}, Total, 81)}
Shapes == {s \in (0..MI) \X (0..MF) : s[1] + s[2] \in 1..Total}
Few(n) == LET F == SeqsOf(Pal, n) IN
  IF n <= 1 \/ Sample >= Cardinality(Pal) * Cardinality(Pal) THEN F ELSE RandomSubset(Sample, F)
Sampled == UNION { {LitDec([neg |-> b, ig |-> SubSeq(d, 1, s[1]), fg |-> SubSeq(d, s[1] + 1, s[1] + s[2]),
                            cut |-> IF s[2] = 0 THEN 0 ELSE k, pad |-> 0])
                     : d \in Few(s[1] + s[2]), b \in BOOLEAN, k \in Cuts} : s \in Shapes }
Family == IF Sample = 0 THEN All ELSE Sampled
MCInit == x \in Family /\ y = x /\ reg = <<>> /\ ret = <<>>
MCNext == y = x /\ y' \in Family /\ UNCHANGED <<x, reg, ret>>
Spec == MCInit /\ [][MCNext]_<<x, y, reg, ret>>

AsD(r) == [neg |-> r.neg, c |-> r.c, f |-> r.f, p |-> 1]
Abs(d) == [d EXCEPT !.neg = FALSE]
Sum(a, b) == AsD(AddExact(a, b))
Diff(a, b) == AsD(AddExact(a, Neg(b)))
Prod(a, b) == [neg |-> NegIf(a.neg # b.neg, NMul(a.c, b.c)), c |-> NMul(a.c, b.c), f |-> a.f + b.f, p |-> 1]
Ulp(f) == [neg |-> FALSE, c |-> NOne, f |-> f, p |-> 1]
NonNegZero(r) == r.c = NZero => ~r.neg

OrderLaws ==
  LET k == CmpVal(x, y) IN
  /\ k \in {-1, 0, 1} /\ CmpVal(y, x) = -k /\ CmpVal(x, x) = 0
  /\ CmpVal(Neg(y), Neg(x)) = k
  /\ (k = 0) = IsZero(Diff(x, y))
  /\ k < 0 => (~IsZero(Diff(x, y)) /\ Diff(x, y).neg)
  \* the same value at a larger scale
  /\ SameVal(x, [x EXCEPT !.c = At(x, x.f + 7), !.f = x.f + 7])

AddLaws ==
  /\ Same(Sum(x, y), Sum(y, x))
  /\ SameVal(Diff(Sum(x, y), y), x)
  /\ IsZero(Diff(x, x))
  /\ CmpVal(Abs(Sum(x, y)), Sum(Abs(x), Abs(y))) <= 0
  /\ NonNegZero(AddRes(x, y)) /\ NonNegZero(SubRes(x, y))
  /\ (AddRes(x, y).out = OK) => AddOk(x, y, AddRes(x, y))
  /\ AddOut(x, y) = AddOut(y, x)
  /\ (SubRes(x, y).out = OK) => SameVal(SubRes(x, y), Diff(x, y))

MulLaws ==
  LET r == MulTrunc(x, y) IN
  /\ Same(Prod(x, y), Prod(y, x))
  /\ SameVal(Prod(Sum(x, y), x), Sum(Prod(x, x), Prod(y, x)))
  /\ NonNegZero(r) /\ MulOut(x, y) = MulOut(y, x)
  /\ r.out = OK => (MulResOk(x, y, r) /\ CmpVal(Abs(AsD(r)), Abs(Prod(x, y))) <= 0
                    /\ WellFormed([AsD(r) EXCEPT !.p = SigInt(r)]))
  /\ (r.out = OK /\ ~IsZero(x) /\ ~IsZero(y) /\ MulExact(x, y)) => SameVal(r, Prod(x, y))

\* q truncated toward zero at its scale:  |q*y| <= |x| < (|q| + 10^-f) |y|
QuotDec == [neg |-> FALSE, c |-> QuotAt(x, y, 0), f |-> 0, p |-> 1]
DivLaws == \A n \in Incrs :
  LET q == DivRes(x, y, n) IN
  /\ (q.out = EDivZero) = IsZero(y)
  /\ NonNegZero(q)
  /\ q.out = OK =>
      /\ CmpVal(Prod(Abs(AsD(q)), Abs(y)), Abs(x)) <= 0
      /\ CmpVal(Abs(x), Prod(Sum(Abs(AsD(q)), Ulp(q.f)), Abs(y))) < 0
      /\ WellFormed([AsD(q) EXCEPT !.p = SigInt(q)])
      /\ (~IsZero(AsD(q))) => q.neg = (x.neg # y.neg)
      /\ ~IsZero(x) => (q.f % G = 0 /\ q.f <= G * MaxFracGroups)
  /\ q.out = EOver => SigInt(QuotDec) > G * MaxGroups

\* x = y * trunc(x / y) + r
RemLaws ==
  LET r == RemRes(x, y) IN
  /\ (r.out = EDivZero) = IsZero(y)
  /\ r.out = OK =>
      /\ CmpVal(Abs(AsD(r)), Abs(y)) < 0
      /\ ~IsZero(AsD(r)) => r.neg = x.neg
      /\ LET q == [QuotDec EXCEPT !.neg = NegIf(x.neg # y.neg, QuotDec.c)]
         IN SameVal(Sum(Prod(q, y), AsD(r)), x)

\* nearest multiple of 10^-n, ties away from zero; on x alone
RoundLaws == \A n \in Ns :
  LET r == RoundRes(x, n)
      half == [neg |-> FALSE, c |-> IF n >= 0 THEN NOne ELSE NPow10(-n), f |-> MaxOf(n, 0), p |-> 1]
      d == Abs(Diff(AsD(r), x))
      two == [neg |-> FALSE, c |-> <<2>>, f |-> 0, p |-> 1]
  IN /\ n <= MaxScale(x) => CmpVal(Prod(d, two), half) <= 0
     /\ NonNegZero(r)
     /\ CmpVal(Prod(d, two), half) = 0 => CmpVal(Abs(AsD(r)), Abs(x)) > 0       \* a tie goes away from zero
     /\ Same(RoundRes(AsD(r), n), r)                                            \* idempotent
     /\ SameVal(RoundRes(Neg(x), n), Neg(AsD(r)))
     /\ (CmpVal(x, y) <= 0 /\ n <= MaxScale(y) /\ n <= MaxScale(x)) => CmpVal(AsD(r), AsD(RoundRes(y, n))) <= 0
     /\ (n >= x.f) => SameVal(r, x)
     /\ n < 0 => NMod(r.c, NPow10(-n)) = NZero

TextLaws ==
  LET t == FullText(x)  q == ParseRes(t) IN
  /\ (PrintedDigits(x) <= MaxDigits) => (q.out = OK /\ q.c = x.c /\ q.f = x.f /\ q.neg = x.neg)
  /\ (FullText(x) = FullText(y)) = Same(x, y)
  /\ \A n \in {k \in Ns : k >= 0} :
       LET u == TextAt(x, n) IN
       /\ n = x.f => u = t
       /\ n < x.f => u = SubSeq(t, 1, Len(t) - (x.f - n) - (IF n = 0 THEN 1 ELSE 0))
       /\ n > x.f => SubSeq(u, 1, Len(t)) = t
IntLaws ==
  LET i == ToIntRes(x, InI64(x))  u == ToIntRes(x, InU64(x)) IN
  /\ i.out = OK => Same(i, [RoundRes(x, 0) EXCEPT !.f = 0])
  /\ (i.out = OK /\ u.out = OK) => Same(i, u)
  /\ (u.out = OK) => ~u.neg
  /\ (i.out = OK) = InI64(x)
=============================================================================
