------------------------------ MODULE Layouts -------------------------------
(***************************************************************************)
(* Every way a text may be laid out: so many digits before the point, so     *)
(* many behind it, and any exponent.  What a parse must answer is told here   *)
(* from these three numbers alone and compared with Dec.ParseRes; every       *)
(* layout is exported, all exponents of a pair in one program.                *)
(***************************************************************************)
EXTENDS Lits, TLC
CONSTANTS MaxI, MaxF, MaxTot, Exps, Shown,
          Part, Parts        \* only every Parts-th layout, from Part
ExpAll == -31..66
VARIABLES ni, nf
vars == <<ni, nf, reg, ret>>

Noise == <<3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4, 6, 2, 6, 4, 3, 3, 8, 3, 2, 7, 9, 5, 2, 8, 8, 4, 1, 9, 7, 1, 6, 9, 3, 9, 9, 3, 7, 5, 1,
           5, 8, 2, 9, 7, 4, 9, 4, 4, 5, 9, 2, 3, 7, 8, 1, 6, 4, 6, 2, 8>>
\* 0: digits that tell positions apart; 1: zeros in front; 2: nines; 3: zeros at the end
Content(v, k) == [j \in 1..k |-> CASE v = 0 -> Noise[j]
                                   [] v = 1 -> IF 2 * j <= k THEN 0 ELSE Noise[j]
                                   [] v = 2 -> 9
                                   [] v = 3 -> IF 2 * j > k THEN 0 ELSE Noise[j]]
\* with a point if there are digits behind it, or now and then without any
Pointed == nf > 0 \/ ni % 3 = 1
Man(v) == LET d == Content(v, ni + nf) IN
  [t |-> [j \in 1..ni |-> 48 + d[j]] \o (IF Pointed THEN <<46>> ELSE <<>>) \o [j \in 1..nf |-> 48 + d[ni + j]],
   s |-> CatStr(SubSeq(d, 1, ni), 1) \o (IF Pointed THEN "." ELSE "") \o CatStr(SubSeq(d, ni + 1, ni + nf), 1),
   m |-> NOfDigits(d)]
RECURSIVE IntStr(_)
IntStr(k) == IF k < 0 THEN "-" \o IntStr(0 - k) ELSE IF k < 10 THEN DigitStr[k + 1] ELSE IntStr(k \div 10) \o DigitStr[(k % 10) + 1]
RECURSIVE ExpBytes(_)
ExpBytes(k) == IF k < 0 THEN <<45>> \o ExpBytes(0 - k) ELSE IF k < 10 THEN <<48 + k>> ELSE ExpBytes(k \div 10) \o <<48 + (k % 10)>>
Variant(e) == (ni + 2 * nf + e + 100) % 4

Init == SpecInit /\ ni = 0 /\ nf = 0
Next == /\ \/ ni < MaxI /\ ni + nf < MaxTot /\ ni' = ni + 1 /\ nf' = nf
           \/ nf < MaxF /\ ni + nf < MaxTot /\ nf' = nf + 1 /\ ni' = ni
        /\ UNCHANGED <<reg, ret>>
Spec == Init /\ [][Next]_vars

\* the answer from the counts
Counted(e) ==
  LET fr == nf - e
      tot == IF fr <= 0 THEN ni + nf - fr ELSE MaxOf(ni + nf, fr)
  IN IF ni + nf = 0 \/ e > MaxDigits \/ e < 0 - MaxNegExp \/ tot > MaxDigits THEN [out |-> ESyntax]
     ELSE [out |-> OK, f |-> MaxOf(fr, 0), up |-> MaxOf(0 - fr, 0)]
Mine == (ni + 2 * nf) % Parts = Part
Mans == [v \in 0..3 |-> Man(v)]
Agree == Mine => LET ms == Mans IN \A e \in Exps :
  LET c == Counted(e)  m == ms[Variant(e)]  p == ParseRes(m.t \o <<101>> \o ExpBytes(e)) IN
  /\ p.out = c.out
  /\ c.out = OK => /\ p.f = c.f /\ p.c = NScale(m.m, c.up)
                   /\ IntG(p) + FracG(p) <= MaxGroups

RECURSIVE All(_, _, _)
All(ms, e, max) == IF e > max THEN "" ELSE
  (IF e \in Exps THEN ";parse " \o (IF e % 2 = 0 THEN "1 -" ELSE "2 ") \o ms[Variant(e)].s \o (IF e = 0 /\ ni % 2 = 0 THEN "" ELSE IF e % 3 = 0 THEN "E" ELSE "e")
                        \o (IF e = 0 /\ ni % 2 = 0 THEN "" ELSE IF e > 0 /\ e % 5 = 0 THEN "+" \o IntStr(e) ELSE IntStr(e))
                        \o (IF Shown THEN (IF e % 2 = 0 THEN ";print 1 -1" ELSE ";print 2 " \o IntStr(nf + 1)) ELSE "")
   ELSE "") \o All(ms, e + 1, max)
Emit == Mine => PrintT("PROG " \o All(Mans, -31, 66))
View == <<ni, nf>>
=============================================================================
