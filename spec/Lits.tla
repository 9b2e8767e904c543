-------------------------------- MODULE Lits --------------------------------
(***************************************************************************)
(* Families of numbers whose nine-digit groups come from a palette, at every *)
(* alignment of groups: used by the models that explore the specification    *)
(* and that generate programs for the implementation.                        *)
(*                                                                          *)
(* A literal is [neg, ig, fg, cut, pad]: groups before and after the point   *)
(* (most significant first), the digits cut from the last fractional group,  *)
(* and leading zero groups written before it.                                *)
(***************************************************************************)
EXTENDS FxdSpec

DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Pow10I == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>
GroupDigits(v) == [i \in 1..9 |-> (v \div Pow10I[10 - i]) % 10]
RECURSIVE CatGroups(_, _)
CatGroups(s, i) == IF i > Len(s) THEN <<>> ELSE GroupDigits(s[i]) \o CatGroups(s, i + 1)
RECURSIVE CatStr(_, _)
CatStr(d, i) == IF i > Len(d) THEN "" ELSE DigitStr[d[i] + 1] \o CatStr(d, i + 1)

LitInt(L)  == [i \in 1..(9 * L.pad) |-> 0] \o CatGroups(L.ig, 1)
LitFrac(L) == LET f == CatGroups(L.fg, 1) IN SubSeq(f, 1, Len(f) - L.cut)
LitDigits(L) == Len(LitInt(L)) + Len(LitFrac(L))
\* an empty integral part is written 0
LitText(L) == LET i == LitInt(L)  f == LitFrac(L) IN
  (IF L.neg THEN "-" ELSE "") \o (IF i = <<>> THEN "0" ELSE CatStr(i, 1))
     \o (IF f = <<>> THEN "" ELSE "." \o CatStr(f, 1))
LitBytes(L) == LET i == LitInt(L)  f == LitFrac(L) IN
  (IF L.neg THEN <<45>> ELSE <<>>) \o (IF i = <<>> THEN <<48>> ELSE [k \in 1..Len(i) |-> i[k] + 48])
     \o (IF f = <<>> THEN <<>> ELSE <<46>> \o [k \in 1..Len(f) |-> f[k] + 48])
\* the number it denotes, without going through its text
LitDec(L) == LET m == NOfDigits(LitInt(L) \o LitFrac(L)) IN
  [neg |-> NegIf(L.neg, m), c |-> m, f |-> Len(LitFrac(L)), p |-> MaxOf(Len(LitInt(L)), 1)]

SeqsOf(S, n) == [1..n -> S]
\* literals with at most mi integral and mf fractional groups from pal
LitSet(pal, mi, mf, cuts, pads, total, maxd) ==
  {L \in UNION { [neg : BOOLEAN, ig : SeqsOf(pal, i), fg : SeqsOf(pal, f), cut : cuts, pad : pads]
                 : i \in 0..mi, f \in 0..mf } :
     /\ Len(L.ig) + Len(L.fg) > 0
     /\ Len(L.ig) + Len(L.fg) + L.pad <= total
     /\ (L.cut > 0 => Len(L.fg) > 0)
     /\ LitDigits(L) <= maxd}
=============================================================================
