------------------------------ MODULE FxdProps ------------------------------
(***************************************************************************)
(* The listed properties as contracts on one recorded step of the machine.  *)
(*                                                                          *)
(* A step is an event e (a record written by the driver) taken in a state   *)
(* reg.  e.o is the operation, e.x the outcome code, e.r the decimal seen    *)
(* in the destination afterwards (an observation, see below), other fields   *)
(* depend on the operation.  Hold(p, e) says that the step respects          *)
(* property p.  Outcomes Panic and Hang are outcomes like any other.         *)
(*                                                                          *)
(* An observation r:                                                        *)
(*   neg, c, f   sign bit, coefficient and scale of the decimal             *)
(*   s, z        what is_neg() and is_zero() answered                        *)
(*   p, iu, fu   intg(), intg_units(), frac_units()                         *)
(***************************************************************************)
EXTENDS FxdSpec

AsDec(r) == [neg |-> r.neg, c |-> r.c, f |-> r.f, p |-> r.p]
Has(e, k) == k \in DOMAIN e
Rounds == {"round", "roundto"}
IsArith(e) == e.o \in ArithOps
X(e) == reg[e.a]
Y(e) == reg[e.b]
N(e) == IF e.o = "div" THEN e.n ELSE 0

\* a parse without resetting is meant for a zero target; on another one, success is not judged
Unjudged(e) == e.o = "parsekeep" /\ e.x = OK /\ ~IsZero(reg[e.a])

\* the decimals an event shows beside its result r: the same call made in other ways (into a fresh zero, by
\* operator, with operands remade, exchanged or negated) and the operands afterwards
Others(e) ==
  UNION {IF Has(e, k) /\ e[k].x = OK /\ Has(e[k], "r") THEN {e[k].r} ELSE {} : k \in {"fr", "op", "f2", "sw", "nn", "nb", "pv"}}
  \cup (IF Has(e, "as") /\ e.as.x = OK /\ ~Unjudged(e) THEN {e.as.r} ELSE {})
  \cup {e[k] : k \in {"sa", "sb"} \cap DOMAIN e}
  \cup (IF Has(e, "pv") THEN {e.pv[k] : k \in {"oa", "ob"} \cap DOMAIN e.pv} ELSE {})
  \cup (IF Has(e, "r2") /\ e.x2 = OK THEN {e.r2} ELSE {})
\* every observation an event carries, as a set
ObsOf(e) == IF Unjudged(e) THEN {} ELSE (IF Has(e, "r") THEN {e.r} ELSE {}) \cup Others(e)

\* equal as far as a user can tell: value, sign shown, scale
SameObs(r, q) == r.neg = q.neg /\ r.c = q.c /\ r.f = q.f /\ r.s = q.s /\ r.z = q.z
\* ... and declared digits
Identical(r, q) == SameObs(r, q) /\ r.p = q.p /\ r.iu = q.iu /\ r.fu = q.fu
SameDec(r, d) == r.neg = d.neg /\ r.c = d.c /\ r.f = d.f
\* left alone: declared digits too
Kept(r, d) == SameDec(r, d) /\ r.p = d.p
IsZeroDec(r) == r.c = NZero /\ ~r.neg /\ r.f = 0

\* the value and scale of r are what a parse of t must give (sign of zero not judged)
ParsedAs(r, E) == r.c = E.c /\ r.f = E.f /\ (r.c = NZero \/ r.neg = E.neg)

-----------------------------------------------------------------------------
Parses == {"parse", "fstr", "parsekeep"}

\* as: the same parse by the entry point for texts
C01(e) == e.o \in Parses =>
  LET E == ParseRes(e.t) IN (E.out = OK /\ ~Unjudged(e)) =>
     /\ e.x = OK => ParsedAs(e.r, E)
     /\ (Has(e, "as") /\ e.as.x = OK) => ParsedAs(e.as.r, E)

C02(e) == e.o \in Parses => LET out == ParseRes(e.t).out IN
  /\ e.x = out
  /\ Has(e, "as") => e.as.x = out

\* parse: the target is register d before; parsekeep: no resetting, on a copy of register a
C03(e) ==
  /\ (e.o = "parse" /\ e.x # OK) => (IF e.rs THEN IsZeroDec(e.r) /\ e.r.z ELSE SameDec(e.r, reg[e.d]))
  /\ (e.o = "parsekeep" /\ e.x # OK) => (SameDec(e.r, reg[e.a]) /\ e.r.z = IsZero(reg[e.a]))
  /\ (e.o = "parse" /\ Has(e, "as") /\ e.as.x # OK) =>
        (IF e.rs THEN IsZeroDec(e.as.r) /\ e.as.r.z ELSE SameDec(e.as.r, reg[e.d]))
  /\ (e.o = "parsekeep" /\ Has(e, "as") /\ e.as.x # OK) => SameDec(e.as.r, reg[e.a])
  /\ (e.o = "parse" /\ e.rs /\ Has(e, "as") /\ e.x = OK /\ e.as.x = OK) => Identical(e.as.r, e.r)
  /\ (e.o = "parse" /\ e.x = OK /\ e.rs /\ Has(e, "fr")) => (e.fr.x = OK /\ Identical(e.r, e.fr.r))

\* e.t: the text printed, e.n: the precision (negative: none)
C04(e) ==
  /\ (e.o = "print" /\ e.n < 0) => (e.x = OK /\ e.t = FullText(X(e)) /\ e.pk /\ e.tq)
  \* if decimals can only be seen through their text, what is printed for parsed and converted
  \* numbers is the printing
  /\ (Has(e, "tx") /\ e.o \in Parses /\ e.x = OK /\ ParseRes(e.t).out = OK) => ParsedAs(e.r, ParseRes(e.t))

C05(e) == (e.o = "print" /\ e.n >= 0) => (e.x = OK /\ e.t = TextAt(X(e), e.n) /\ e.pk /\ e.tq)

\* e.r: what parsing the full printing of a gives, e.eq: == to a, e.tq: prints identically
C06(e) == (e.o = "rt" /\ PrintedDigits(X(e)) <= MaxDigits) =>
             (e.x = OK /\ e.eq /\ e.tq /\ e.r.f = X(e).f /\ e.r.c = X(e).c /\ (e.r.c = NZero \/ e.r.neg = X(e).neg))

ArithContract(e) ==
  /\ (ArithOut(e.o, X(e), Y(e), N(e)) = OK) => e.x = OK
  /\ (e.x = OK) => ArithOk(e.o, X(e), Y(e), N(e), e.r)
C07(e) == e.o \in {"add", "sub"} => ArithContract(e)
C08(e) == e.o = "mul" => ArithContract(e)
C09(e) == (e.o = "div" /\ ~IsZero(Y(e))) => ArithContract(e)
C10(e) == (e.o = "rem" /\ ~IsZero(Y(e))) => ArithContract(e)

C11(e) == e.o \in {"div", "rem"} =>
  /\ (e.x = EDivZero) <=> IsZero(Y(e))
  /\ (e.x = EDivZero) => (IsZeroDec(e.r) /\ e.r.z)

C12(e) == IsArith(e) =>
  /\ e.x \in {OK, EDivZero, EOver}
  /\ (e.x = EOver) <=> (ArithOut(e.o, X(e), Y(e), N(e)) = EOver)

\* rnd: r in place (on a copy of register a), r2 into a destination, s the source afterwards
C13(e) == (e.o = "rnd" /\ RoundFits(X(e), e.n)) =>
  LET E == RoundRes(X(e), e.n) IN
     /\ e.x = OK /\ SameVal(e.r, E)
     /\ e.x2 = OK /\ SameVal(e.r2, E)
     /\ (e.n >= X(e).f) => (SameVal(e.r, X(e)) /\ SameVal(e.r2, X(e)))
C14(e) == (e.o = "rnd" /\ RoundFits(X(e), e.n)) =>
  LET E == RoundRes(X(e), e.n) IN
     /\ e.x = e.x2
     /\ (e.x = OK /\ e.x2 = OK) =>
          ( /\ SameObs(e.r, e.r2) /\ e.tq
            /\ SameDec(e.sa, X(e))
            /\ IF e.n < 0 /\ IsZero(E) THEN e.r.f = 0 ELSE e.r.f = E.f )

C15(e) ==
  /\ e.o = "cmp" => LET k == CmpVal(X(e), Y(e)) IN
       /\ e.x = OK /\ e.k = k
       /\ e.pk = k
       /\ e.rk = 0 - k
       /\ e.eq = (k = 0) /\ e.ne = (k # 0)
       /\ e.lt = (k < 0) /\ e.le = (k <= 0) /\ e.gt = (k > 0) /\ e.ge = (k >= 0)
       \* larger, smaller of the two: the second, the first (0: they look the same)
       /\ e.mx \in (IF k < 0 THEN {2} ELSE IF k > 0 THEN {1} ELSE {0, 1, 2})
       /\ e.mn \in (IF k < 0 THEN {1} ELSE IF k > 0 THEN {2} ELSE {0, 1, 2})
       /\ e.cl \in (IF k = 0 THEN {0, 1, 2} ELSE {1})
  \* sort: the registers e.l in the order that sorting them gave
  /\ e.o = "sort" => /\ e.x = OK /\ e.sm
       /\ \A i \in 1..(Len(e.l)-1) : CmpVal(reg[e.l[i]], reg[e.l[i+1]]) <= 0

C16(e) == e.o = "hash" => /\ e.x = OK
                          /\ SameVal(X(e), Y(e)) => (e.he /\ e.hk)
C17(e) == e.o \in {"fromi", "fromu"} =>
  /\ e.x = OK /\ e.r.c = e.k /\ e.r.f = 0 /\ (e.r.c = NZero \/ e.r.neg = e.kn)
  /\ e.eq                                      \* == to the parse of the integer's text

IntAnswer(e, in) == LET E == ToIntRes(X(e), in) IN
  /\ e.x = E.out
  /\ e.x = OK => (e.k = E.c /\ e.kn = E.neg)
  /\ SameDec(e.sa, X(e))
C18(e) == /\ e.o = "toi" => IntAnswer(e, InI64(X(e)))
          /\ e.o = "tou" => IntAnswer(e, InU64(X(e)))

ZeroClean(r) == r.c = NZero => (~r.neg /\ ~r.s /\ r.z)
C19(e) == /\ \A r \in ObsOf(e) : ZeroClean(r)
          /\ (e.o = "print" /\ IsZero(X(e)) /\ Len(e.t) > 0) => e.t[1] # 45
          /\ (e.o = "cmp" /\ IsZero(X(e)) /\ IsZero(Y(e))) => (e.x = OK /\ e.k = 0 /\ e.eq)

\* fr: the same operation into a fresh zero; sa, sb: the operands afterwards
C20(e) ==
  /\ Has(e, "fr") => /\ e.fr.x = e.x
                     /\ (e.x = OK \/ e.x = EDivZero) => Identical(e.r, e.fr.r)
  /\ (Has(e, "sa") /\ e.o # "rnd") => Kept(e.sa, X(e))
  /\ Has(e, "sb") => Kept(e.sb, Y(e))
  /\ (e.o = "rnd" /\ Has(e, "f2")) => (e.f2.x = e.x2 /\ (e.x2 = OK => Identical(e.r2, e.f2.r)) /\ Kept(e.sa, X(e)))
  /\ (e.o = "setzero") => (IsZeroDec(e.r) /\ e.r.z /\ e.r.p = 1)
  /\ (e.o = "setone")  => (SameDec(e.r, One) /\ ~e.r.z /\ e.r.p = 1)

\* pv: the same operation with operands remade by other means (oa, ob: those operands)
C21(e) == (Has(e, "pv") /\ SameDec(e.pv.oa, X(e)) /\ (Has(e.pv, "ob") => SameDec(e.pv.ob, Y(e)))) =>
     /\ e.pv.x = e.x
     /\ (e.x = OK /\ Has(e, "r")) => SameObs(e.pv.r, e.r)
     /\ (e.x = OK /\ Has(e, "k")) => e.pv.k = e.k
     /\ (e.x = OK /\ Has(e, "kn")) => e.pv.kn = e.kn

\* op: the operator form
C22(e) == Has(e, "op") => IF e.x = OK THEN e.op.x = OK /\ SameObs(e.op.r, e.r) ELSE e.op.x = Panic

Shape(r) == /\ ~Has(r, "w")               \* w: units out of range, or digits beyond the scale
            /\ r.iu = Groups(r.p) /\ r.fu = Groups(r.f)
            /\ r.iu + r.fu <= MaxGroups
            /\ SigInt(r) <= r.p
            /\ (r.c = NZero => r.z)          \* else something is stored outside
C23(e) ==
  /\ (Has(e, "r") /\ e.x = OK /\ ~Unjudged(e)) => Shape(e.r)
  /\ \A r \in Others(e) : Shape(r)
  /\ (IsArith(e) /\ e.x = OK) =>
        e.r.iu <= DeclaredMost(e.o, e.r, X(e), Y(e))
  \* nothing stored beyond the declared fraction: printed at more digits it is padded by zeros
  /\ (e.o = "print" /\ e.n > X(e).f) => (e.x = OK /\ e.t = TextAt(X(e), e.n))

C24(e) ==
  /\ \A r \in ObsOf(e) : (r.z <=> r.c = NZero) /\ (r.c # NZero => (r.s <=> r.neg))
  /\ e.o = "setneg" => (e.x = OK /\ e.r.c = reg[e.d].c /\ e.r.f = reg[e.d].f
                        /\ e.r.neg = ~IsZero(reg[e.d]))
  /\ e.o = "setpos" => (e.x = OK /\ e.r.c = reg[e.d].c /\ e.r.f = reg[e.d].f /\ ~e.r.neg)
  /\ e.o \in {"setzero", "zero"} => (e.x = OK /\ SameDec(e.r, Zero) /\ e.r.z /\ e.r.p = 1)
  /\ e.o \in {"setone", "one"}   => (e.x = OK /\ SameDec(e.r, One) /\ ~e.r.z /\ e.r.p = 1)
  /\ e.o \in {"setneg", "setpos"} => e.r.p = reg[e.d].p
  /\ e.o = "copy" => (e.x = OK /\ Kept(e.r, X(e)))

\* sw: the operands exchanged; nn: both (or the only one) negated; nb: the second negated, for a sum or
\* difference with the other of the two operations.  The scale of a zero is not compared.
SameNum(q, r) == q.c = r.c /\ (r.c = NZero \/ (q.f = r.f /\ q.neg = r.neg /\ q.s = r.s))
Opposite(q, r) == q.c = r.c /\ (r.c = NZero \/ (q.f = r.f /\ q.neg # r.neg /\ q.s # r.s))
Mirror(e, q, opp) == q.x = e.x /\ (e.x = OK => IF opp THEN Opposite(q.r, e.r) ELSE SameNum(q.r, e.r))
C25(e) ==
  /\ (IsArith(e) /\ Has(e, "sw")) =>
       /\ e.o \in {"add", "mul"} => Mirror(e, e.sw, FALSE)
       /\ e.o = "sub" => Mirror(e, e.sw, TRUE)
       /\ Mirror(e, e.nn, e.o \in {"add", "sub", "rem"})
       /\ Mirror(e, e.nb, e.o \in {"mul", "div"})
  /\ (e.o = "rnd" /\ Has(e, "nn")) => Mirror(e, e.nn, TRUE)
  /\ (e.o = "cmp" /\ Has(e, "nk")) => (e.nx = e.x /\ (e.x = OK => (e.nk = 0 - e.k /\ e.rk = 0 - e.k)))

\* again: the call of event e.orig made again later, in another order and by other threads; w: every
\* answer it got.  After an overflow the destination is not part of the answer.
C26(e) == e.o = "again" => /\ e.x = OK /\ Len(e.w) > 0
                           /\ \A i \in 1..Len(e.w) : \A k \in DOMAIN e.w[i] :
                                  IF k = "r" THEN Identical(e.w[i].r, e.orig.r) ELSE e.w[i][k] = e.orig[k]

Hold(p, e) ==
  CASE p = "C01" -> C01(e) [] p = "C02" -> C02(e) [] p = "C03" -> C03(e) [] p = "C04" -> C04(e)
    [] p = "C05" -> C05(e) [] p = "C06" -> C06(e) [] p = "C07" -> C07(e) [] p = "C08" -> C08(e)
    [] p = "C09" -> C09(e) [] p = "C10" -> C10(e) [] p = "C11" -> C11(e) [] p = "C12" -> C12(e)
    [] p = "C13" -> C13(e) [] p = "C14" -> C14(e) [] p = "C15" -> C15(e) [] p = "C16" -> C16(e)
    [] p = "C17" -> C17(e) [] p = "C18" -> C18(e) [] p = "C19" -> C19(e) [] p = "C20" -> C20(e)
    [] p = "C21" -> C21(e) [] p = "C22" -> C22(e) [] p = "C23" -> C23(e) [] p = "C24" -> C24(e)
    [] p = "C25" -> C25(e) [] p = "C26" -> C26(e)

AllProps == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12",
             "C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25","C26"}
=============================================================================
