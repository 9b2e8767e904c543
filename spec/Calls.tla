------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Calls against a library that may remember earlier calls.                 *)
(*                                                                          *)
(* The library of FxdSpec is a function of what it is given.  Here it is     *)
(* refined by one that keeps, per thread or for all threads, the last call    *)
(* of each operation and its answer, and gives that answer again when the    *)
(* key of a call is the same.  Key says what the memory looks at:             *)
(*   "none"    nothing is remembered                                         *)
(*   "whole"   everything the call was given                                  *)
(*   a part    "first", "second" operand, "param", everything but the "op",    *)
(*             the operands as a "pair" without order, or both without "sign",  *)
(*             "scale", "low" groups, "high" groups, the "cut" of the last      *)
(*             group, or with their groups in no order ("sum")                  *)
(* NoMemory says that every answer is the one a library without memory        *)
(* gives; it holds for "none" and "whole" and TLC refutes it for every part    *)
(* (run by the thorough tier as a check of the model's teeth).                *)
(*                                                                          *)
(* A behaviour makes a call, then Depth - 1 times another one that differs    *)
(* from the previous call in one Place.  Every behaviour is exported as a     *)
(* program for the implementation, which then repeats all calls in other      *)
(* orders and from several threads.                                          *)
(***************************************************************************)
EXTENDS FxdSpec, TLC, Sequences

CONSTANTS Key,         \* see above
          Shared,      \* one memory for all threads
          Threads, Depth, Calls0,   \* the operations used
          Detail       \* how many base operands

VARIABLES cur, log, memo, prog, cnt
cvars == <<cur, log, memo, prog, cnt, reg, ret>>

-----------------------------------------------------------------------------
(* Operands: three groups g1 g2 g3, given by their contents (0: empty, 1: low, *)
(* 2: high, 3: nines), the point behind pt of them, the last group cut to      *)
(* three digits or whole if it is behind the point, and a sign                 *)

Kinds == 0..3
GroupText(k) == CASE k = 0 -> "000000000" [] k = 1 -> "000000007" [] k = 2 -> "700000003" [] k = 3 -> "999999999"
GroupNat(k) == CASE k = 0 -> NZero [] k = 1 -> NOfInt(7) [] k = 2 -> NOfDigits(<<7,0,0,0,0,0,0,0,3>>) [] k = 3 -> NOfDigits(<<9,9,9,9,9,9,9,9,9>>)
Cut3(k) == CASE k = 0 -> "000" [] k = 1 -> "000" [] k = 2 -> "700" [] k = 3 -> "999"
Nat3(k) == CASE k <= 1 -> NZero [] k = 2 -> NOfInt(700) [] k = 3 -> NOfInt(999)
Opnd(neg, g1, g2, g3, pt, cut) == [neg |-> neg, g1 |-> g1, g2 |-> g2, g3 |-> g3, pt |-> pt, cut |-> cut]
Whole(x) == x.pt = 3 \/ ~x.cut
Dot(x, k) == IF x.pt = k THEN (IF k = 0 THEN "0." ELSE IF k < 3 THEN "." ELSE "") ELSE ""
Text(x) == (IF x.neg THEN "-" ELSE "") \o Dot(x, 0) \o GroupText(x.g1) \o Dot(x, 1) \o GroupText(x.g2)
           \o Dot(x, 2) \o (IF Whole(x) THEN GroupText(x.g3) ELSE Cut3(x.g3))
Value(x) ==
  LET i == NAdd(NMul(GroupNat(x.g1), NPow10(9)), GroupNat(x.g2))
      m == IF Whole(x) THEN NAdd(NMul(i, NPow10(9)), GroupNat(x.g3)) ELSE NAdd(NMul(i, NPow10(3)), Nat3(x.g3))
      f == 9 * (3 - x.pt) - (IF Whole(x) THEN 0 ELSE 6)
  IN [neg |-> NegIf(x.neg, m), c |-> m, f |-> f, p |-> MaxOf(1, 9 * x.pt)]

\* x changed in one place
Near(x) == {[x EXCEPT !.neg = ~x.neg], [x EXCEPT !.cut = ~x.cut]}
           \cup {[x EXCEPT !.g1 = k] : k \in Kinds \ {x.g1}}
           \cup {[x EXCEPT !.g2 = k] : k \in Kinds \ {x.g2}}
           \cup {[x EXCEPT !.g3 = k] : k \in Kinds \ {x.g3}}
           \cup {[x EXCEPT !.pt = k] : k \in (0..3) \ {x.pt}}
           \cup {[x EXCEPT !.g1 = x.g2, !.g2 = x.g1], [x EXCEPT !.g2 = x.g3, !.g3 = x.g2], [x EXCEPT !.g1 = x.g3, !.g3 = x.g1]}

-----------------------------------------------------------------------------
(* Calls *)

Binary(o) == o \in ArithOps \cup {"cmp"}
Params(o) == CASE o = "div" -> {0, 4, 14} [] o = "rnd" -> {-3, 0, 2, 9} [] o = "print" -> {-1, 2, 30} [] OTHER -> {0}
Bases == IF Detail = 0 THEN {Opnd(FALSE, 2, 3, 2, 2, FALSE)}
         ELSE {Opnd(FALSE, 2, 3, 2, 2, FALSE), Opnd(TRUE, 0, 3, 2, 1, TRUE), Opnd(FALSE, 3, 3, 3, 2, FALSE), Opnd(FALSE, 2, 0, 1, 3, FALSE)}
Others == IF Detail = 0 THEN {Opnd(FALSE, 1, 2, 3, 2, FALSE)}
          ELSE {Opnd(FALSE, 1, 2, 3, 2, FALSE), Opnd(TRUE, 0, 2, 0, 3, FALSE), Opnd(FALSE, 0, 0, 2, 2, FALSE), Opnd(FALSE, 2, 3, 2, 2, FALSE)}
FirstCalls == {[o |-> o, a |-> a, b |-> b, n |-> n] : o \in Calls0, a \in Bases, b \in Others, n \in {-3, 0, 4, 9, 30}}
Used == {c \in FirstCalls : c.n \in Params(c.o) /\ (~Binary(c.o) => c.b = CHOOSE b \in Others : TRUE)}
NextCalls(c) == {[c EXCEPT !.a = x] : x \in Near(c.a)}
                \cup (IF Binary(c.o) THEN {[c EXCEPT !.b = x] : x \in Near(c.b)} \cup {[c EXCEPT !.a = c.b, !.b = c.a]} ELSE {})
                \cup {[c EXCEPT !.n = k] : k \in Params(c.o) \ {c.n}}
\* or the same operands in another operation
Cross(c) == {[c EXCEPT !.o = o, !.n = CHOOSE k \in Params(o) : TRUE] : o \in Calls0 \ {c.o}}

\* what a library without memory answers
Fresh(c) ==
  LET x == Value(c.a)  y == Value(c.b) IN
  CASE c.o \in ArithOps -> ArithRes(c.o, x, y, c.n)
    [] c.o = "rnd"   -> RoundRes(x, c.n)
    [] c.o = "cmp"   -> CmpVal(x, y)
    [] c.o = "print" -> Printed(x, c.n)
    [] c.o = "parse" -> x
    [] c.o = "toi"   -> ToIntRes(x, InI64(x))
    [] c.o = "hash"  -> <<x.neg, x.c, x.f>>

NoOpnd == Opnd(FALSE, 0, 0, 0, 0, FALSE)
Part(x) == CASE Key = "sign"  -> [x EXCEPT !.neg = FALSE]
             [] Key = "scale" -> [x EXCEPT !.pt = 0]
             [] Key = "low"   -> [x EXCEPT !.g3 = 0]
             [] Key = "high"  -> [x EXCEPT !.g1 = 0]
             [] Key = "cut"   -> [x EXCEPT !.cut = FALSE]
             [] Key = "sum"   -> [x EXCEPT !.g1 = x.g1 + x.g2 + x.g3, !.g2 = x.g1 * x.g2 * x.g3 + x.g1 * x.g2 + x.g2 * x.g3 + x.g1 * x.g3,
                                           !.g3 = 0]           \* the groups without their order
             [] OTHER -> x
KeyOf(c) == CASE Key = "first"  -> [c EXCEPT !.b = NoOpnd]
              [] Key = "second" -> [c EXCEPT !.a = NoOpnd]
              [] Key = "param"  -> [c EXCEPT !.n = 0]
              [] Key = "pair"   -> [c EXCEPT !.a = {c.a, c.b}, !.b = NoOpnd]          \* without the order of the operands
              [] Key = "op"     -> [c EXCEPT !.o = ""]
              [] OTHER -> [c EXCEPT !.a = Part(c.a), !.b = Part(c.b)]

Place(t) == IF Shared THEN 1 ELSE t
Remembered(t, c) == Key # "none" /\ \E m \in memo : m.at = Place(t) /\ m.key = KeyOf(c)
Answer(t, c) == IF Remembered(t, c) THEN (CHOOSE m \in memo : m.at = Place(t) /\ m.key = KeyOf(c)).ans ELSE Fresh(c)
\* the memory keeps the last call of each operation
Keep(t, c, v) == memo' = {m \in memo : ~(m.at = Place(t) /\ m.key.o = KeyOf(c).o)} \cup {[at |-> Place(t), key |-> KeyOf(c), ans |-> v]}

IntStr(k) == IF k < 0 THEN "-" \o ToString(-k) ELSE ToString(k)
Say(c) == ";parse 1 " \o Text(c.a)
  \o (IF Binary(c.o) THEN ";parse 2 " \o Text(c.b) ELSE "")
  \o (CASE c.o = "div" -> ";div 3 1 2 " \o IntStr(c.n)
        [] c.o \in ArithOps -> ";" \o c.o \o " 3 1 2"
        [] c.o = "rnd"   -> ";rnd 3 1 " \o IntStr(c.n)
        [] c.o = "print" -> ";print 1 " \o IntStr(c.n)
        [] c.o = "cmp"   -> ";cmp 1 2"
        [] c.o = "hash"  -> ";hash 1 1"
        [] c.o = "toi"   -> ";toi 1;tou 1"
        [] OTHER -> "")

Init == /\ SpecInit /\ cur = <<>> /\ log = <<>> /\ memo = {} /\ prog = "" /\ cnt = 0
Call(t, c) ==
  LET v == Answer(t, c) IN
  /\ cur' = c /\ log' = Append(log, [by |-> t, call |-> c, ans |-> v])
  /\ IF Key = "none" THEN memo' = memo ELSE Keep(t, c, v)
  /\ prog' = prog \o Say(c) /\ cnt' = cnt + 1
  /\ UNCHANGED <<reg, ret>>
Next == /\ cnt < Depth
        /\ \E t \in Threads, c \in (IF cnt = 0 THEN Used ELSE NextCalls(cur) \cup {cur} \cup (IF Detail > 0 \/ Key = "op" THEN Cross(cur) ELSE {})) :
             /\ (cnt = 0 => t = 1)
             /\ Call(t, c)
Spec == Init /\ [][Next]_cvars

NoMemory == log # <<>> => log[Len(log)].ans = Fresh(log[Len(log)].call)
Repeatable == \A i, j \in 1..Len(log) : log[i].call = log[j].call => log[i].ans = log[j].ans
View == <<log, memo, cnt>>
Emit == cnt = Depth => PrintT("PROG " \o SubSeq(prog, 2, Len(prog)))
=============================================================================
