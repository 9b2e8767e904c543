------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Every pair of shapes two operands may have within nine groups of storage *)
(* (i groups before and f groups after the point, i + f <= 9), with contents *)
(* that fill, touch the ends of, or leave empty those groups.  Operands that *)
(* no text can spell (more than 65 digits) are built by the machine's own    *)
(* operations.  The algebraic laws of MC_Dec are checked on every pair, and  *)
(* every pair (or every single operand) is exported as a program that puts it through the operations   *)
(* in Suffix.                                                                *)
(***************************************************************************)
EXTENDS Contents, TLC

CONSTANTS PatA, PatB,     \* contents of the two operands
          Suffix,         \* what is done with them: a text
          Pairs,          \* FALSE: single operands only
          Part, Parts     \* only the pairs of one part are explored (of Parts)
VARIABLES x, y, px, py, n
svars == <<x, y, px, py, n, reg, ret>>

\* a program that leaves L in register r, using registers 5 to 8
S(L) == IF L.neg THEN "-" ELSE ""
Num(k) == DigitStr[k + 1]
RECURSIVE IntStr(_)
IntStr(k) == IF k < 10 THEN Num(k) ELSE IntStr(k \div 10) \o Num(k % 10)
Bare(s) == IF s = <<>> THEN "0" ELSE CatStr(s, 1)
Build(L, r) ==
  LET i == Len(L.ig)  digs == LitInt(L)  fr == LitFrac(L)
      whole == IF i <= 7 THEN "parse 7 " \o S(L) \o Bare(digs)
               ELSE "parse 5 " \o S(L) \o Bare(SubSeq(digs, 1, 9 * (i - 4))) \o ";parse 6 1e36;mul 8 5 6;parse 5 "
                      \o S(L) \o Bare(SubSeq(digs, 9 * (i - 4) + 1, 9 * i)) \o ";add 7 8 5"
      frac == IF Len(fr) <= 64 THEN "parse 6 " \o S(L) \o "0." \o CatStr(fr, 1)
              ELSE "parse 5 " \o S(L) \o "0." \o CatStr(SubSeq(fr, 1, 64), 1) \o ";rnd 6 5 " \o IntStr(Len(fr))
  IN IF LitDigits(L) <= MaxDigits /\ (i > 0 \/ LitDigits(L) <= 64) THEN "parse " \o Num(r) \o " " \o LitText(L)
     ELSE IF fr = <<>> THEN whole \o ";copy " \o Num(r) \o " 7"
     ELSE IF i = 0 THEN frac \o ";copy " \o Num(r) \o " 6"
     ELSE whole \o ";" \o frac \o ";add " \o Num(r) \o " 7 6"

\* its value (digits beyond the 64th fractional one are dropped when it has to be padded)
Value(L) ==
  LET fr == LitFrac(L)  i == Len(L.ig)
      kept == IF (LitDigits(L) <= MaxDigits /\ (i > 0 \/ LitDigits(L) <= 64)) \/ Len(fr) <= 64 THEN fr
              ELSE [k \in 1..Len(fr) |-> IF k <= 64 THEN fr[k] ELSE 0]
      m == NOfDigits(LitInt(L) \o kept)
  IN [neg |-> NegIf(L.neg, m), c |-> m, f |-> Len(fr), p |-> MaxOf(Len(LitInt(L)), 1)]

ShInit == /\ SpecInit
          /\ n = 0 /\ px = <<>> /\ py = <<>>
          /\ x = Zero /\ y = Zero
First == n = 0 /\ \E s \in AllShapes, p \in PatA :
  /\ px' = <<s, p>> /\ x' = Value(Shape(s, p, 0)) /\ n' = 1 /\ UNCHANGED <<y, py, reg, ret>>
Second == Pairs /\ n = 1 /\ \E s \in AllShapes, p \in PatB :
  /\ (px[1][1] + 7 * px[1][2] + 3 * s[1] + 5 * s[2]) % Parts = Part
  /\ py' = <<s, p>> /\ y' = Value(Shape(s, p, 1)) /\ n' = 2
  /\ reg' = [reg EXCEPT ![1] = x, ![2] = y']
  /\ UNCHANGED <<x, px, ret>>
Next == First \/ Second
Spec == ShInit /\ [][Next]_svars

View == <<px, py, n>>
LAWS == INSTANCE MC_Dec WITH Pal <- {}, MI <- 0, MF <- 0, Total <- 9, Cuts <- {0}, Incrs <- {0, 30}, Ns <- {}, Sample <- 0, reg <- reg, ret <- ret
Stored(d) == IntG(d) + FracG(d) <= MaxGroups
Fits == Stored(x) /\ Stored(y)
Laws == n = 2 => LAWS!AddLaws /\ LAWS!MulLaws /\ LAWS!DivLaws /\ LAWS!RemLaws /\ LAWS!OrderLaws
Sound == n = 2 => /\ WellFormed([x EXCEPT !.p = SigInt(x)])
                  /\ \A o \in ArithOps : LET r == ArithRes(o, x, y, 4) IN
                       r.out = OK => (Stored(r) /\ (IsZero(r) => ~r.neg))
Emit == /\ (n = 1 /\ ~Pairs) => PrintT("PROG " \o Build(Shape(px[1], px[2], 0), 1) \o Suffix)
        /\ n = 2 => PrintT("PROG " \o Build(Shape(px[1], px[2], 0), 1) \o ";" \o Build(Shape(py[1], py[2], 1), 2) \o Suffix)
=============================================================================
