----------------------------- MODULE PrintUnits -----------------------------
(***************************************************************************)
(* How the library writes a decimal, piece by piece: a unit of nine digits     *)
(* is written as three pieces of three digits each, looked up in a table.      *)
(* Here the units are given by their pieces.                                  *)
(*                                                                          *)
(*   x     the decimal: iu integral units (most significant first), fu         *)
(*         fractional ones (most significant first), f declared fractional     *)
(*         digits; both sequences of <<piece, piece, piece>>                  *)
(*   n     precision asked for; negative: as many as there are                *)
(*   out   the digits written so far, "." is 10                               *)
(*   k     units done in this phase                                           *)
(*   heading  leading zeros are still skipped                                 *)
(*   left  fractional digits still to be written                              *)
(*   ph    "int", "lone" (nothing written before the point), "point", "frac",  *)
(*         "pad", "done"                                                      *)
(* Prefix says what is written is never taken back and always the beginning    *)
(* of what is wanted; Right says that at the end it is all of it.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Pal,         \* pieces
          Whole,       \* TRUE: only some units (for more of them)
          MI, MF, Most,
          Export
VARIABLES x, n, out, k, heading, left, ph
vars == <<x, n, out, k, heading, left, ph>>

Point == 10
Dg(p) == <<p \div 100, (p \div 10) % 10, p % 10>>
Units == IF Whole THEN {<<0, 0, 0>>, <<0, 0, 7>>, <<0, 60, 0>>, <<500, 0, 0>>, <<999, 999, 999>>, <<10, 203, 4>>}
         ELSE [1..3 -> Pal]
UnitDg(u) == Dg(u[1]) \o Dg(u[2]) \o Dg(u[3])
RECURSIVE AllDg(_)
AllDg(s) == IF s = <<>> THEN <<>> ELSE UnitDg(s[1]) \o AllDg(Tail(s))
Clean(s, f) == \A i \in (f + 1)..(9 * Len(s)) : AllDg(s)[i] = 0
MinI(a, c) == IF a <= c THEN a ELSE c
Zeros0(c) == [i \in 1..c |-> 0]

Init == /\ \E i \in 0..MI, j \in 0..MF : \E si \in [1..i -> Units], sf \in [1..j -> Units] : \E f \in (IF j = 0 THEN {0} ELSE (9 * j - 8)..(9 * j)) :
             /\ i + j > 0 /\ Clean(sf, f)
             /\ x = [i |-> si, s |-> sf, f |-> f]
        /\ n \in -1..Most
        /\ out = <<>> /\ k = 0 /\ heading = TRUE /\ left = 0 /\ ph = "int"

RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d

\* one piece: without its leading zeros as long as nothing has been written
Piece(o, h, p) == IF ~h THEN <<o \o Dg(p), FALSE>> ELSE IF p = 0 THEN <<o, TRUE>> ELSE <<o \o Strip(Dg(p)), FALSE>>

IntUnit ==
  /\ ph = "int" /\ k < Len(x.i)
  /\ LET u == x.i[k + 1] IN
     IF heading /\ u = <<0, 0, 0>> THEN UNCHANGED <<out, heading>>
     ELSE LET a == Piece(out, heading, u[1])  c == Piece(a[1], a[2], u[2])  d == Piece(c[1], c[2], u[3])
          IN out' = d[1] /\ heading' = d[2]
  /\ k' = k + 1 /\ UNCHANGED <<x, n, left, ph>>
IntDone ==
  /\ ph = "int" /\ k = Len(x.i)
  /\ out' = IF heading THEN out \o <<0>> ELSE out
  /\ ph' = "point" /\ k' = 0 /\ UNCHANGED <<x, n, heading, left>>
AtPoint ==
  /\ ph = "point"
  /\ IF n = 0 \/ (n < 0 /\ x.s = <<>>) THEN ph' = "done" /\ UNCHANGED <<out, left>>
     ELSE /\ out' = out \o <<Point>>
          /\ left' = IF n < 0 THEN x.f ELSE MinI(n, 9 * Len(x.s))
          /\ ph' = IF x.s = <<>> THEN "pad" ELSE "frac"
  /\ UNCHANGED <<x, n, k, heading>>
\* a fractional unit: as many of its pieces as are still wanted
FracUnit ==
  /\ ph = "frac" /\ k < Len(x.s) /\ left > 0
  /\ LET u == x.s[k + 1]  take == MinI(left, 9) IN
     /\ out' = IF u = <<0, 0, 0>> THEN out \o Zeros0(take)
               ELSE LET a == MinI(take, 3)  c == MinI(take - a, 3)  d == take - a - c
                    IN out \o SubSeq(Dg(u[1]), 1, a) \o SubSeq(Dg(u[2]), 1, c) \o SubSeq(Dg(u[3]), 1, d)
     /\ left' = left - take
  /\ k' = k + 1 /\ UNCHANGED <<x, n, heading, ph>>
FracDone ==
  /\ ph = "frac" /\ (k = Len(x.s) \/ left = 0)
  /\ ph' = IF n > 9 * Len(x.s) THEN "pad" ELSE "done"
  /\ UNCHANGED <<x, n, out, k, heading, left>>
Pad == /\ ph = "pad" /\ out' = out \o Zeros0(n - 9 * Len(x.s)) /\ ph' = "done"
       /\ UNCHANGED <<x, n, k, heading, left>>
Next == IntUnit \/ IntDone \/ AtPoint \/ FracUnit \/ FracDone \/ Pad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* what should be written, from the digits alone
IntWanted == LET d == Strip(AllDg(x.i)) IN IF d = <<>> THEN <<0>> ELSE d
FracWanted == LET c == IF n < 0 THEN x.f ELSE n  d == AllDg(x.s) IN
  IF c = 0 THEN <<>> ELSE <<Point>> \o [i \in 1..c |-> IF i <= Len(d) THEN d[i] ELSE 0]
Wanted == IntWanted \o FracWanted

Right == ph = "done" => out = Wanted
Prefix == Len(out) <= Len(Wanted) /\ SubSeq(Wanted, 1, Len(out)) = out
Ends == <>(ph = "done")
\* written again, it is the same number with the digits asked for
Enough == ph = "done" => (n >= 0 => Len(FracWanted) = (IF n = 0 THEN 0 ELSE n + 1))

-----------------------------------------------------------------------------
Str == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Cat(_)
Cat(d) == IF d = <<>> THEN "" ELSE Str[d[1] + 1] \o Cat(Tail(d))
Text == (IF x.i = <<>> THEN "0" ELSE Cat(AllDg(x.i))) \o (IF x.s = <<>> THEN "" ELSE "." \o Cat(SubSeq(AllDg(x.s), 1, x.f)))
RECURSIVE Prints(_)
Prints(c) == IF c > Most THEN "" ELSE ";print 1 " \o (IF c < 0 THEN "-1" ELSE ToString(c)) \o Prints(c + 1)
View == vars
\* one program for each decimal, with all precisions
Emit == (Export /\ n = -1 /\ ph = "done") =>
  PrintT("PROG parse 1 " \o Text \o Prints(-1) \o ";rt 1;neg 1;print 1 -1;print 1 1")
=============================================================================
