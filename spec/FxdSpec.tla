------------------------------- MODULE FxdSpec -------------------------------
(***************************************************************************)
(* The library as a state machine: a program owns NR decimals (registers)   *)
(* and every public operation is an action that reads some of them, writes  *)
(* at most one and returns something.                                       *)
(*                                                                          *)
(*   reg[i]  the decimal in register i:  [neg, c, f, p]                     *)
(*             value (-1)^neg * c * 10^-f, scale f, declared integral       *)
(*             digits p                                                     *)
(*   ret     what the last operation returned: [op, out, val]               *)
(*                                                                          *)
(* What an operation may answer is given by relations on outcomes and       *)
(* results (XxxOut, XxxOk); the actions are built from them, and so are the  *)
(* per-property contracts that judge recorded executions (FxdProps).         *)
(***************************************************************************)
EXTENDS Dec, FiniteSets

Zero == [neg |-> FALSE, c |-> NZero, f |-> 0, p |-> 1]
One  == [neg |-> FALSE, c |-> NOne,  f |-> 0, p |-> 1]

(* a decimal that the library may hold *)
WellFormed(d) ==
  /\ d.f >= 0 /\ d.p >= 0
  /\ SigInt(d) <= d.p
  /\ Groups(d.p) + Groups(d.f) <= MaxGroups
  /\ IsZero(d) => ~d.neg

-----------------------------------------------------------------------------
(* The five arithmetic operations uniformly: o in ArithOps, operands x y,    *)
(* n the requested extra precision of a division                            *)

ArithOps == {"add", "sub", "mul", "div", "rem"}
OperatorIncr == 4                  \* extra precision of the / operator

DivOut(x, y, n) == DivRes(x, y, n).out
RemOut(x, y)    == IF IsZero(y) THEN EDivZero ELSE OK
ArithOut(o, x, y, n) ==
  CASE o = "add" -> AddOut(x, y)
    [] o = "sub" -> AddOut(x, Neg(y))
    [] o = "mul" -> MulOut(x, y)
    [] o = "div" -> DivOut(x, y, n)
    [] o = "rem" -> RemOut(x, y)

\* r (with fields neg, c, f) is an allowed result; the sign of a zero is not judged here
AddOk(x, y, r) ==
  /\ SameVal(r, AddExact(x, y))
  /\ AddScaleOk(x, y, r.f)
MulResOk(x, y, r) ==
  IF IsZero(x) \/ IsZero(y) THEN IsZero(r) ELSE MulOk(x, y, r)
DivOk(x, y, n, r) ==
  LET q == DivRes(x, y, n)
  IN /\ q.out = OK
     /\ r.c = q.c
     /\ (IsZero(x) \/ r.f = q.f)
     /\ (IsZero(r) \/ r.neg = q.neg)
RemOk(x, y, r) ==
  LET m == RemRes(x, y)
  IN /\ m.out = OK
     /\ r.c = m.c
     /\ IF IsZero(m) THEN r.f \in {0, m.f} ELSE (r.f = m.f /\ r.neg = m.neg)
ArithOk(o, x, y, n, r) ==
  CASE o = "add" -> AddOk(x, y, r)
    [] o = "sub" -> AddOk(x, Neg(y), r)
    [] o = "mul" -> MulResOk(x, y, r)
    [] o = "div" -> DivOk(x, y, n, r)
    [] o = "rem" -> RemOk(x, y, r)

\* the result the specification itself computes (one of the allowed ones)
ArithRes(o, x, y, n) ==
  CASE o = "add" -> AddRes(x, y)
    [] o = "sub" -> SubRes(x, y)
    [] o = "mul" -> MulTrunc(x, y)
    [] o = "div" -> DivRes(x, y, n)
    [] o = "rem" -> RemRes(x, y)

\* integral groups a result may declare: what it needs, at least one, up to what an operand
\* declared, or for a product what the operands' integral digits together need
DeclaredMost(o, r, x, y) ==
  MaxOf(MaxOf(1, IntG(r)),
        IF o = "mul" THEN MulIG(x, y) ELSE MaxOf(Groups(x.p), Groups(y.p)))
DeclaredGroups(o, r, x, y) == IntG(r)..DeclaredMost(o, r, x, y)

-----------------------------------------------------------------------------
(* The machine *)

CONSTANT NR
VARIABLES reg, ret

Regs == 1..NR
Return(op, out, val) == ret' = [op |-> op, out |-> out, val |-> val]
Put(d, r, p) == reg' = [reg EXCEPT ![d] = [neg |-> r.neg, c |-> r.c, f |-> r.f, p |-> p]]

SpecInit == reg = [i \in Regs |-> Zero] /\ ret = [op |-> "none", out |-> OK, val |-> 0]

Arith(o, d, a, b, n) ==
  LET x == reg[a]  y == reg[b]  r == ArithRes(o, x, y, n)
  IN /\ Return(o, r.out, 0)
     /\ IF r.out = OK
          THEN \E g \in DeclaredGroups(o, r, x, y) :
                 /\ g + FracG(r) <= MaxGroups
                 /\ Put(d, r, MaxOf(SigInt(r), G * g))
          ELSE IF r.out = EDivZero THEN reg' = [reg EXCEPT ![d] = Zero]
          ELSE \E z \in {Zero, reg[d]} : reg' = [reg EXCEPT ![d] = z]    \* unspecified in general

Parse(d, t, reset) ==
  LET r == ParseRes(t)
  IN /\ Return("parse", r.out, 0)
     /\ IF r.out = OK THEN \E p \in {MaxOf(SigInt(r), 1), SigInt(r)} : Put(d, r, p)
        ELSE reg' = [reg EXCEPT ![d] = IF reset THEN Zero ELSE reg[d]]

FromInt(d, neg, n) ==
  LET r == Res(neg, n, 0)
  IN Return("from", OK, 0) /\ Put(d, r, G * Groups(SigInt(r)))

RoundInto(d, a, n) ==              \* d = a: in place
  /\ RoundFits(reg[a], n)
  /\ LET r == RoundRes(reg[a], n)
     IN Return("round", OK, 0) /\ Put(d, r, MaxOf(SigInt(r), G * MaxOf(1, IntG(r))))

ToText(a, n)  == Return("print", OK, Printed(reg[a], n)) /\ UNCHANGED reg
Compare(a, b) == Return("cmp", OK, CmpVal(reg[a], reg[b])) /\ UNCHANGED reg
ToI64(a) == LET r == ToIntRes(reg[a], InI64(reg[a])) IN Return("toi", r.out, <<r.neg, r.c>>) /\ UNCHANGED reg
ToU64(a) == LET r == ToIntRes(reg[a], InU64(reg[a])) IN Return("tou", r.out, <<r.neg, r.c>>) /\ UNCHANGED reg
SetNeg(d)  == Return("setneg", OK, 0)  /\ reg' = [reg EXCEPT ![d].neg = ~IsZero(reg[d])]
SetPos(d)  == Return("setpos", OK, 0)  /\ reg' = [reg EXCEPT ![d].neg = FALSE]
SetZero(d) == Return("setzero", OK, 0) /\ reg' = [reg EXCEPT ![d] = Zero]
SetOne(d)  == Return("setone", OK, 0)  /\ reg' = [reg EXCEPT ![d] = One]
Copy(d, a) == Return("copy", OK, 0)    /\ reg' = [reg EXCEPT ![d] = reg[a]]
=============================================================================
