------------------------------- MODULE Related -------------------------------
(***************************************************************************)
(* Pairs of operands that have something to do with each other:              *)
(*   "kin"      the second is made from the first: the same number at the    *)
(*              same or another scale or with leading zeros, its opposite,   *)
(*              its neighbours in the last place, multiples and parts by      *)
(*              powers of ten, double, half, square, complement;              *)
(*   "machine"  both are limits of the machine's integer types, give or take  *)
(*              one, or small numbers, with the point at the end or further   *)
(*              to the left.                                                 *)
(* The laws of MC_Dec are checked on each pair, and each is exported as a     *)
(* program that puts it through the operations in Suffix.                     *)
(***************************************************************************)
EXTENDS Contents, TLC

CONSTANTS PatA,          \* contents of the first operand
          Kind, Kins, Bits,
          Points,        \* scales of the two
          Suffix
VARIABLES x, y, px, py, n
rvars == <<x, y, px, py, n, reg, ret>>
View == <<px, py, n>>

Few == {<<0, 0>>, <<2, 2>>}
Many == Few \cup {<<0, 2>>, <<9, 0>>, <<9, 9>>, <<10, 1>>, <<18, 18>>, <<27, 0>>}

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN NOne ELSE LET h == Pow2(k - 1) IN NAdd(h, h)
Less(m, d) == IF NCmp(m, NOfInt(d)) < 0 THEN m ELSE NSub(m, NOfInt(d))
Mk(neg, m, f) == [neg |-> NegIf(neg, m), c |-> m, f |-> f, p |-> MaxOf(NDigits(m) - f, 1)]
\* the text of the number m * 10^-f after z leading zeros, in bytes and characters
SpellBytes(neg, m, f, z) ==
  LET d == NToDigits(m, MaxOf(NDigits(m), f + 1))  i == Len(d) - f IN
  (IF neg THEN <<45>> ELSE <<>>) \o [k \in 1..(z + i) |-> IF k <= z THEN 48 ELSE 48 + d[k - z]]
    \o (IF f = 0 THEN <<>> ELSE <<46>> \o [k \in 1..f |-> 48 + d[i + k]])
RECURSIVE Chars(_, _)
Chars(b, k) == IF k > Len(b) THEN "" ELSE (IF b[k] = 45 THEN "-" ELSE IF b[k] = 46 THEN "." ELSE DigitStr[b[k] - 47]) \o Chars(b, k + 1)
Spell(neg, m, f, z) == Chars(SpellBytes(neg, m, f, z), 1)
Room(m, f, z) == MaxOf(NDigits(m), f + 1) + z

\* the second operand: its sign, digits, scale and leading zeros
Kin(k, v) ==
  LET m == v.c  f == v.f  S2(neg, a, g, z) == [neg |-> neg, m |-> a, f |-> g, z |-> z] IN
  CASE k = "same"     -> S2(v.neg, m, f, 0)
    [] k = "opposite" -> S2(~v.neg, m, f, 0)
    [] k = "padded"   -> S2(v.neg, m, f, 9)
    [] k = "far"      -> S2(~v.neg, m, f, 19)
    [] k = "up"       -> S2(v.neg, NAdd(m, NOne), f, 0)
    [] k = "down"     -> S2(v.neg, Less(m, 1), f, 0)
    [] k = "over"     -> S2(~v.neg, NAdd(m, NOne), f, 0)
    [] k = "under"    -> S2(~v.neg, Less(m, 1), f, 0)
    [] k = "zero1"    -> S2(v.neg, NMul(m, NPow10(1)), f + 1, 0)
    [] k = "zero9"    -> S2(~v.neg, NMul(m, NPow10(9)), f + 9, 0)
    [] k = "zero10"   -> S2(v.neg, NMul(m, NPow10(10)), f + 10, 0)
    [] k = "more1"    -> S2(v.neg, NAdd(NMul(m, NPow10(1)), NOne), f + 1, 0)
    [] k = "more9"    -> S2(v.neg, NAdd(NMul(m, NPow10(9)), NOne), f + 9, 0)
    [] k = "less10"   -> S2(v.neg, Less(NMul(m, NPow10(10)), 1), f + 10, 0)
    [] k = "tenth"    -> S2(v.neg, m, f + 1, 0)
    [] k = "ten"      -> S2(~v.neg, NMul(m, NPow10(1)), f, 0)
    [] k = "moved"    -> S2(v.neg, m, f + 9, 0)
    [] k = "moved18"  -> S2(v.neg, m, f + 18, 0)
    [] k = "billion"  -> S2(v.neg, NMul(m, NPow10(9)), f, 0)
    [] k = "double"   -> S2(v.neg, NAdd(m, m), f, 0)
    [] k = "triple"   -> S2(v.neg, NAdd(NAdd(m, m), NOne), f, 0)
    [] k = "half"     -> S2(~v.neg, NDiv(m, NOfInt(2)), f, 0)
    [] k = "square"   -> S2(v.neg, NMul(m, m), MinOf(2 * f, f), 0)
    [] k = "complement" -> S2(v.neg, NSub(NPow10(NDigits(m)), m), f, 0)
    [] k = "scale"    -> S2(v.neg, NPow10(NDigits(m)), f, 0)
    [] k = "ulp"      -> S2(v.neg, NOne, f, 0)
    [] k = "whole"    -> S2(v.neg, NDiv(m, NPow10(f)), 0, 0)
    [] k = "fraction" -> S2(v.neg, NMod(m, NPow10(f)), f, 0)

Init == SpecInit /\ n = 0 /\ px = <<>> /\ py = <<>> /\ x = Zero /\ y = Zero
RFirst == Kind = "kin" /\ n = 0 /\ \E s \in AllShapes, p \in PatA : LET L == Shape(s, p, 0) IN
  /\ LitDigits(L) <= MaxDigits
  /\ px' = <<s, p>> /\ x' = LitDec(L) /\ n' = 1 /\ UNCHANGED <<y, py, reg, ret>>
RSecond == Kind = "kin" /\ n = 1 /\ \E k \in Kins : LET w == Kin(k, x) IN
  /\ ~IsZero(x) /\ Room(w.m, w.f, w.z) <= MaxDigits
  /\ py' = <<k>> /\ y' = Mk(w.neg, w.m, w.f) /\ n' = 2 /\ reg' = [reg EXCEPT ![1] = x, ![2] = y'] /\ UNCHANGED <<x, px, ret>>

Mags == {m \in {NAdd(Pow2(b), NOfInt(1)) : b \in Bits} \cup {Pow2(b) : b \in Bits} \cup {NSub(Pow2(b), NOfInt(1)) : b \in Bits}
              \cup {NOfInt(v) : v \in {0, 1, 2, 3, 10, 999999999, 1000000000}} \cup {NPow10(18), NSub(NPow10(18), NOne), NPow10(19)} : TRUE}
MFirst == Kind = "machine" /\ n = 0 /\ \E m \in Mags, neg \in BOOLEAN :
  /\ px' = <<m, neg>> /\ x' = Mk(neg, m, 0) /\ n' = 1 /\ UNCHANGED <<y, py, reg, ret>>
MSecond == Kind = "machine" /\ n = 1 /\ \E m \in Mags, neg \in BOOLEAN, f \in Points :
  LET v == Mk(x.neg, x.c, f[1]) IN
  /\ (IsZero(x) => ~px[2]) /\ (m = NZero => ~neg)
  /\ py' = <<m, neg, f>> /\ x' = v /\ y' = Mk(neg, m, f[2]) /\ n' = 2
  /\ reg' = [reg EXCEPT ![1] = v, ![2] = y'] /\ UNCHANGED <<px, ret>>
Spec == Init /\ [][RFirst \/ RSecond \/ MFirst \/ MSecond]_rvars

\* the text spells the number
Lead == IF Kind = "kin" /\ n = 2 THEN Kin(py[1], x).z ELSE 0
Spelt == n = 2 => \A w \in {<<x, 0>>, <<y, Lead>>} : LET r == ParseRes(SpellBytes(w[1].neg, w[1].c, w[1].f, w[2])) IN
                     r.out = OK /\ SameVal(r, w[1]) /\ r.f = w[1].f
LAWS == INSTANCE MC_Dec WITH Pal <- {}, MI <- 0, MF <- 0, Total <- 9, Cuts <- {0}, Incrs <- {0, 30}, Ns <- {}, Sample <- 0, reg <- reg, ret <- ret
Laws == n = 2 => LAWS!AddLaws /\ LAWS!MulLaws /\ LAWS!DivLaws /\ LAWS!RemLaws /\ LAWS!OrderLaws
\* what is known about a number and its kin
Known == (n = 2 /\ Kind = "kin") =>
  LET k == py[1]  c == CmpVal(x, y)  s == IF x.neg THEN -1 ELSE 1 IN
  /\ k \in {"same", "padded", "zero1", "zero10"} =>
       (c = 0 /\ IsZero(SubRes(x, y)) /\ IsZero(RemRes(x, y)) /\ LET q == DivRes(x, y, 0) IN q.out = OK => SameVal(q, One))
  /\ k \in {"opposite", "far", "zero9"} =>
       (c = s /\ IsZero(AddRes(x, y)) /\ IsZero(RemRes(x, y)) /\ LET q == DivRes(x, y, 0) IN q.out = OK => SameVal(Neg(q), One))
  /\ k \in {"up", "more1", "more9"} => (c = -s /\ (SubRes(y, x).out = OK => SubRes(y, x).c = NOne) /\ SameVal(RemRes(x, y), x))
  /\ k \in {"down", "less10"} => (c = s /\ (~IsZero(y) /\ NDigits(x.c) > 1 => SubRes(x, y).c = RemRes(x, y).c))
  /\ k \in {"tenth", "moved", "moved18"} => (c = s /\ IsZero(RemRes(x, y)))
  /\ k \in {"double", "triple"} => (c = -s /\ SameVal(RemRes(x, y), x))
Emit == n = 2 => PrintT("PROG parse 1 " \o Spell(x.neg, x.c, x.f, 0) \o ";parse 2 " \o Spell(y.neg, y.c, y.f, Lead) \o Suffix)
=============================================================================
