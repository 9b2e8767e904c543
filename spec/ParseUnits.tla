----------------------------- MODULE ParseUnits -----------------------------
(***************************************************************************)
(* How the library lays out the digits of a text in units, as a machine that *)
(* reads one character after another.  D digits make a unit, MaxD digits are  *)
(* accepted; both are small enough here for TLC to run through all texts.     *)
(*                                                                          *)
(*   dg, dot, e    the text: digits, the number of digits before the point    *)
(*                 (-1: no point), the exponent                               *)
(*   i             next character (a digit or the point), from 1              *)
(*   up            unit being filled (from 0, least significant first)         *)
(*   out, cut      what is in it so far; digits still expected                 *)
(*   u             the units; Old is what they held before                     *)
(*   ph            "intg", "shift" (integral digits supplied by the exponent), *)
(*                 "frac", "done", "refused"                                   *)
(*                                                                          *)
(* Layout: at the end every unit within the declared digits holds what the    *)
(* text says and was written, whatever it held before.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS D, MaxD, MaxN, Pal, Exps
VARIABLES dg, dot, e, i, up, out, cut, u, ph
vars == <<dg, dot, e, i, up, out, cut, u, ph>>

ExpSet == -5..6
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
B == Pow(10, D)
Groups(d) == (d + D - 1) \div D
Old == 7                                     \* left in every unit by an earlier value
MaxU == Groups(MaxD) + 1

N == Len(dg)
\* digits behind the point; a point behind the last digit counts for nothing
Behind == IF dot = -1 \/ dot = N THEN 0 ELSE N - dot
Frac0 == Behind - e
Frac == IF Frac0 > 0 THEN Frac0 ELSE 0
Digits == IF Frac0 <= 0 THEN N - Frac0 ELSE IF N > Frac0 THEN N ELSE Frac0
Heading == IF Frac0 > N THEN Frac0 - N ELSE 0      \* zeros supplied by the exponent in front
IntD == Digits - Frac
IU == Groups(IntD)
FU == Groups(Frac)

Init == /\ \E n \in 1..MaxN : \E s \in [1..n -> Pal] : \E p \in -1..n : dg = s /\ dot = p
        /\ e \in Exps
        /\ i = 1 /\ up = 0 /\ out = 0 /\ cut = 0 /\ u = <<>> /\ ph = "start"

Begin ==
  /\ ph = "start"
  /\ IF Digits > MaxD THEN ph' = "refused" /\ UNCHANGED <<up, cut, u>>
     ELSE /\ u' = [k \in 1..MaxU |-> Old]
          /\ up' = IU + FU - 1
          /\ cut' = IF IU > 0 THEN IntD ELSE D
          /\ ph' = IF IU > 0 THEN "intg" ELSE IF FU > 0 THEN "heading" ELSE "done"
  /\ UNCHANGED <<dg, dot, e, i, out>>

Write(v) == u' = [u EXCEPT ![up + 1] = v] /\ up' = up - 1

\* an integral digit; at the end of a unit, or of the integral digits, the unit is written
Intg ==
  /\ ph = "intg"
  /\ LET o == out * 10 + dg[i]  c == cut - 1 IN
     IF c = 0 \/ i = N
     THEN /\ Write(o * Pow(10, c % D)) /\ out' = 0 /\ cut' = c - (c % D) /\ i' = i + 1 /\ ph' = "shift"
     ELSE IF c % D > 0 THEN out' = o /\ cut' = c /\ i' = i + 1 /\ UNCHANGED <<u, up, ph>>
     ELSE Write(o) /\ out' = 0 /\ cut' = c /\ i' = i + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<dg, dot, e>>
\* whole units supplied by the exponent
Shift ==
  /\ ph = "shift"
  /\ IF cut > 0 THEN Write(0) /\ cut' = cut - D /\ UNCHANGED ph
     ELSE /\ ph' = IF FU > 0 THEN "heading" ELSE "done"
          /\ cut' = D /\ UNCHANGED <<u, up>>
  /\ UNCHANGED <<dg, dot, e, i, out>>
\* zeros in front of the fractional digits: whole units, then part of one
HeadLeft == Heading - D * (FU - 1 - up)            \* as many as are not yet written
HeadingStep ==
  /\ ph = "heading"
  /\ IF HeadLeft >= D THEN Write(0) /\ UNCHANGED <<cut, ph>>
     ELSE cut' = D - (IF HeadLeft > 0 THEN HeadLeft ELSE 0) /\ ph' = "frac" /\ UNCHANGED <<u, up>>
  /\ UNCHANGED <<dg, dot, e, i, out>>
FracDigit ==
  /\ ph = "frac"
  /\ LET c == cut - 1  o == out + dg[i] * Pow(10, c) IN
     IF i = N THEN Write(o) /\ ph' = "done" /\ UNCHANGED <<out, cut, i>>
     ELSE IF c > 0 THEN out' = o /\ cut' = c /\ i' = i + 1 /\ UNCHANGED <<u, up, ph>>
     ELSE Write(o) /\ cut' = D /\ out' = 0 /\ i' = i + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<dg, dot, e>>
Next == Begin \/ Intg \/ Shift \/ HeadingStep \/ FracDigit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(ph \in {"done", "refused"})

\* the digit for 10^k, and the one the text has there
DigitAt(k) == (u[FU + (k \div D) + 1] \div Pow(10, k % D)) % 10
Layout == ph = "done" =>
  /\ up = -1                                        \* every unit written, none twice
  /\ \A k \in (0 - FU * D)..(IU * D - 1) :           \* digit by digit
       DigitAt(k) = IF N - k - Frac0 \in 1..N THEN dg[N - k - Frac0] ELSE 0
  /\ \A k \in (IU + FU + 1)..MaxU : u[k] = Old
InUnit == ph \in {"intg", "frac"} => (out < B /\ i <= N)
Refused == ph = "refused" <=> (ph # "start" /\ Digits > MaxD)
Stops == ph # "done" => up >= -1
=============================================================================
