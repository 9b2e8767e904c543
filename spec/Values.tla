------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Families of single values at which tables, ranges and conversions turn:   *)
(*   "ints"    every power of ten and of two, multiples of powers of 10^9,   *)
(*             and the limits of the integer types, give or take a little;   *)
(*   "edges"   the limits of the integer types with fractions around the     *)
(*             half;                                                          *)
(*   "groups"  every number of three digits at every place of a group before *)
(*             and after the point.                                          *)
(* The laws of MC_Dec are checked on each, and each is exported as a program *)
(* that takes it through the operations concerned.                           *)
(***************************************************************************)
EXTENDS Lits, TLC

CONSTANTS Kinds, Near, Stride, Suffix,
          Scales     \* multiples of 10^9 around b * 2^a are centres as well
VARIABLES item, x
vvars == <<item, x, reg, ret>>

Digits(m) == LET d == NDigits(m) IN CatStr(NToDigits(m, MaxOf(d, 1)), 1)
Off(m, d) == IF d >= 0 THEN NAdd(m, NOfInt(d)) ELSE NSub(m, NOfInt(-d))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN NOne ELSE LET h == Pow2(k - 1) IN NAdd(h, h)

Deltas == (-Near)..Near
Centres == {NPow10(k) : k \in 1..20} \cup {Pow2(k) : k \in 3..65}
           \cup {NMul(NOfInt(j), NPow10(9 * m)) : j \in {1, 9, 10, 18, 19, 500000000, 999999999}, m \in 1..2}
           \cup {I64Max, I64MinMag, U64Max}
           \cup {NMul(Off(NMul(Pow2(a), NOfInt(b)), c), NPow10(9)) : a \in Scales, b \in {1, 3, 5, 7}, c \in {-1, 0, 1}}
Mags == {m \in {Off(c, d) : c \in Centres, d \in Deltas} : NDigits(m) <= 21} \cup {NOfInt(k) : k \in 0..20}
Limits == {Off(c, d) : c \in {I64Max, I64MinMag, U64Max, NOfInt(5)}, d \in Deltas} \cup {NZero}

\* fractions around the half, and fractions whose groups are zero or full
Fracs == { <<5>>, <<4>>, <<0>>, <<9>>,
           <<4,9,9,9,9,9,9,9,9>>, <<5,0,0,0,0,0,0,0,0>>, <<5,0,0,0,0,0,0,0,0,0>>,
           <<4,9,9,9,9,9,9,9,9,9>>, <<4,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>,
           <<0,0,0,0,0,0,0,0,0,5>>, <<0,0,0,0,0,0,0,0,0,9,9>>, <<5,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>,
           <<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>,
           [i \in 1..30 |-> IF i = 30 THEN 1 ELSE 0], [i \in 1..40 |-> IF i = 1 THEN 5 ELSE 0] }

Ints == [kind : {"ints"}, m : Mags, neg : BOOLEAN, fr : {<<>>}]
Edges == [kind : {"edges"}, m : Limits, neg : BOOLEAN, fr : Fracs]
Triples == [kind : {"groups"}, m : {NOfInt(v) : v \in {w \in 0..999 : w % Stride = 0}}, neg : {FALSE}, fr : {<<>>}]
Items == (IF "ints" \in Kinds THEN Ints ELSE {}) \cup (IF "edges" \in Kinds THEN Edges ELSE {})
         \cup (IF "groups" \in Kinds THEN Triples ELSE {})

ValueOf(i) == LET m == NAdd(NMul(i.m, NPow10(Len(i.fr))), NOfDigits(i.fr)) IN
  [neg |-> NegIf(i.neg, m), c |-> m, f |-> Len(i.fr), p |-> MaxOf(NDigits(i.m), 1)]
Text(i) == (IF i.neg THEN "-" ELSE "") \o Digits(i.m) \o (IF i.fr = <<>> THEN "" ELSE "." \o CatStr(i.fr, 1))

VInit == SpecInit /\ item = <<>> /\ x = Zero
VNext == item = <<>> /\ \E i \in Items :
  /\ item' = <<i>> /\ x' = ValueOf(i) /\ reg' = [reg EXCEPT ![1] = x'] /\ UNCHANGED ret
Spec == VInit /\ [][VNext]_vvars
View == item

LAWS == INSTANCE MC_Dec WITH Pal <- {}, MI <- 0, MF <- 0, Total <- 9, Cuts <- {0}, Incrs <- {0}, Ns <- {-19, -9, -1, 0, 1, 9},
                             Sample <- 0, y <- x, reg <- reg, ret <- ret
Laws == LAWS!TextLaws /\ LAWS!IntLaws /\ LAWS!RoundLaws
\* the range of the conversions, said again with whole numbers only
Range == item # <<>> =>
  LET i == item[1]  whole == \A k \in DOMAIN i.fr : i.fr[k] = 0  mag == i.m IN
  /\ InU64(x) = ((NCmp(mag, U64Max) < 0 \/ (mag = U64Max /\ whole)) /\ (~i.neg \/ (mag = NZero /\ whole)))
  /\ InI64(x) = IF i.neg THEN NCmp(mag, I64MinMag) < 0 \/ (mag = I64MinMag /\ whole)
                ELSE NCmp(mag, I64Max) < 0 \/ (mag = I64Max /\ whole)

AsInt(i) == IF i.neg THEN NCmp(i.m, I64MinMag) <= 0 ELSE NCmp(i.m, U64Max) <= 0
IntProgram(i) ==
  LET t == Text(i) IN
  "parse 1 " \o t \o ";toi 1;tou 1;rt 1;print 1 -1"
    \o (IF AsInt(i) THEN ";int 2 " \o t \o ";cmp 1 2;hash 1 2;toi 2;tou 2;print 2 -1;print 2 3;add 3 1 2;sub 4 2 1;mul 5 2 2;cmp 4 2;rnd 6 2 -1"
                         \o ";rnd 6 2 4;cmp 6 2;copy 7 2;neg 7;pos 7;cmp 7 2" ELSE "")
EdgeProgram(i) == "parse 1 " \o Text(i) \o ";toi 1;tou 1;rnd 2 1 0;toi 2;tou 2;parse 4 1;mul 3 1 4;toi 3;tou 3;print 1 0;print 1 -1"
\* numbers in which the three digits stand at every place
RECURSIVE Each(_, _)
Each(texts, k) == IF k > Len(texts) THEN ""
                  ELSE "parse 1 " \o texts[k] \o ";print 1 -1;print 1 1;print 1 5;print 1 12;rt 1;" \o Each(texts, k + 1)
GroupProgram(i) ==
  LET t == CatStr(NToDigits(i.m, 3), 1) IN
  Each(<<t, t \o "000", t \o "000000", "1" \o t \o t \o t, t \o "00000" \o t \o "0", "0." \o t \o t \o t, "0.000" \o t, "0.000000" \o t,
         "7" \o t \o "." \o t \o "000" \o t \o t, "0." \o t, "5.00" \o t>>, 1)
Emit == item # <<>> => LET i == item[1] IN
  PrintT("PROG " \o (CASE i.kind = "ints" -> IntProgram(i) [] i.kind = "edges" -> EdgeProgram(i) [] OTHER -> GroupProgram(i)) \o Suffix)
=============================================================================
