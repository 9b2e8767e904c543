------------------------------- MODULE FxdMC --------------------------------
(***************************************************************************)
(* The machine of FxdSpec explored by TLC over families of literals, its     *)
(* invariants, and the behaviours it has, exported as programs for the       *)
(* implementation (one per class of behaviours).                             *)
(*                                                                          *)
(* A behaviour parses Loads literals into registers 1.., then takes Depth    *)
(* operations.  prog is the program so far.  States are identified by View:  *)
(* the classes of the numbers in the registers and of the steps taken, so    *)
(* that TLC keeps one behaviour of each class and every class reachable      *)
(* within the bounds is exported once.                                       *)
(***************************************************************************)
EXTENDS Lits, TLC, IOUtils

CONSTANTS Pal, MI, MF, Cuts, Pads, Total,     \* the literals
          Loads, Depth,                       \* literals loaded, operations taken
          Ops,                                \* operations used
          Incrs, Detail,                      \* extra precisions; how finely numbers are classed
          Suffix                              \* observations appended to every program

VARIABLES n, prog, steps
mvars == <<reg, ret, n, prog, steps>>

Literals == LitSet(Pal, MI, MF, Cuts, Pads, Total, MaxDigits)
Num(i) == DigitStr[i + 1]
RECURSIVE IntStr(_)
IntStr(k) == IF k < 0 THEN "-" \o IntStr(-k) ELSE IF k < 10 THEN Num(k) ELSE IntStr(k \div 10) \o Num(k % 10)

-----------------------------------------------------------------------------
(* classes *)

\* digit patterns that matter for carries and borrows
Pattern(d) == LET k == NDigits(d.c) IN
  IF d.c = NZero THEN "zero" ELSE IF d.c = NPow10(k - 1) THEN "10" ELSE IF NAdd(d.c, NOne) = NPow10(k) THEN "99"
  ELSE IF Detail > 1 /\ NMod(d.c, NPow10(9)) = NZero THEN "low zero" ELSE "any"
Class(d) == IF Detail = 9 THEN <<IntG(d), FracG(d)>>
            ELSE <<d.neg, IntG(d), FracG(d), d.f % G = 0, Groups(d.p) - IntG(d), IF Detail > 0 THEN Pattern(d) ELSE "">>
View == <<n, IF Detail = 9 THEN [i \in 1..Len(steps) |-> <<steps[i][1], steps[i][3]>>] ELSE steps, [i \in Regs |-> Class(reg[i])]>>

MCInit == SpecInit /\ n = 0 /\ prog = "" /\ steps = <<>>

Say(text, tag) == prog' = (IF prog = "" THEN "" ELSE prog \o ";") \o text /\ steps' = Append(steps, tag) /\ n' = n + 1

Load == n < Loads /\ \E L \in Literals :
  LET d == n + 1  x == LitDec(L) IN
  /\ Return("parse", OK, 0) /\ Put(d, x, x.p)
  /\ Say("parse " \o Num(d) \o " " \o LitText(L), <<"load", 0, OK>>)

\* registers that hold something
Live == {i \in Regs : i <= MaxOf(Loads, 1)} \cup {i \in Regs : reg[i] # Zero}
Dests == IF Depth = 1 THEN {Loads + 1} ELSE {Loads + 1, 1}
Calc == \E o \in Ops \cap ArithOps, d \in Dests, a \in Live, b \in Live, k \in (IF "div" \in Ops THEN Incrs ELSE {0}) :
  /\ o # "div" => k = 0
  /\ LET r == ArithRes(o, reg[a], reg[b], k) IN
     /\ Return(o, r.out, 0)
     /\ IF r.out = OK THEN Put(d, r, G * IntG(r)) ELSE reg' = [reg EXCEPT ![d] = Zero]
     /\ Say(o \o " " \o Num(d) \o " " \o Num(a) \o " " \o Num(b) \o (IF o = "div" THEN " " \o IntStr(k) ELSE ""),
            <<o, k, r.out, Class(reg[a]), Class(reg[b])>>)

Abs0(x) == [x EXCEPT !.neg = FALSE]
Places(x) == {0, x.f, x.f + 1, G * FracG(x) + 1} \cup {x.f - j : j \in 1..MinOf(x.f, 10)}
             \cup {G * j : j \in 0..FracG(x)} \cup {G * j + 1 : j \in 0..FracG(x)}
             \cup {0 - j : j \in 1..MinOf(SigInt(x) + 1, 10)}
             \cup {0 - G * j : j \in 1..IntG(x)} \cup {0 - (G * j - 1) : j \in 1..IntG(x)}
             \cup {0 - SigInt(x), 0 - SigInt(x) - 1, 0 - x.p, 0 - x.p - 1}
Round == "rnd" \in Ops /\ \E a \in Live, d \in Dests : \E k \in Places(reg[a]) :
  /\ RoundFits(reg[a], k)
  /\ LET r == RoundRes(reg[a], k) IN
     /\ Return("round", OK, 0) /\ Put(d, r, G * MaxOf(1, IntG(r)))
     /\ Say("rnd " \o Num(d) \o " " \o Num(a) \o " " \o IntStr(k),
            <<"rnd", k - reg[a].f, k % G = 0, Class(reg[a]), IF k < reg[a].f THEN r.c = RoundRes(Abs0(reg[a]), k).c ELSE TRUE>>)

MCNext == \/ Load
          \/ n >= Loads /\ n < Loads + Depth /\ (Calc \/ Round)
          \/ n = Loads + Depth /\ FALSE

Spec == MCInit /\ [][MCNext]_mvars

-----------------------------------------------------------------------------
(* invariants of the machine *)

Sound == /\ \A i \in Regs : WellFormed(reg[i])
         /\ ret.out \in {OK, EDivZero, EOver}
         /\ n = Loads + Depth => (IF Depth = 0 THEN TRUE ELSE TRUE)

\* every behaviour explored to the end is exported; evaluated once per class
Emit == (n = Loads + Depth) => PrintT("PROG " \o prog \o Suffix)
=============================================================================
