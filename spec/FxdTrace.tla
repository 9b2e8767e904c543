------------------------------ MODULE FxdTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded executions: every recorded history must be a     *)
(* behaviour of FxdSpec, as far as the focused properties are concerned.     *)
(*                                                                          *)
(* The file named by TRACE has one history per line:                        *)
(*     {"h": id, "ev": [event, ...]}                                        *)
(* Each event is checked against the contracts in Focus in the state        *)
(* reached so far.  A step that fails is reported (REJECT) and the machine   *)
(* continues from the state observed, so one defect does not hide others.   *)
(***************************************************************************)
EXTENDS FxdProps, TLC, IOUtils, Json

Hist == ndJsonDeserialize(IOEnv.TRACE)
FocusId == IOEnv.FOCUS                   \* a property id, or "all"
Focus == IF FocusId = "all" THEN AllProps ELSE {FocusId}

VARIABLES h, l                           \* history number, next event

tvars == <<reg, ret, h, l>>

\* kinds of step whose occurrence is counted (what was actually exercised)
Kinds == <<"parse accepted", "parse refused", "print", "roundtrip",
  "add/sub carried into a new group", "add/sub borrowed down", "add/sub overflow", "add/sub plain",
  "mul exact", "mul truncated", "mul overflow", "mul zero",
  "div exact", "div inexact", "div overflow", "division by zero",
  "rem zero", "rem nonzero", "rem of smaller",
  "round tie", "round up", "round down", "round pad", "round to zero", "round does not fit",
  "cmp equal", "cmp less or greater", "hash of equals", "hash of others",
  "int in range", "int out of range", "from int", "setter", "other", "call repeated">>
KindOf(e) ==
  CASE e.o \in Parses -> IF e.x = OK THEN 1 ELSE 2
    [] e.o = "print" -> 3
    [] e.o = "rt" -> 4
    [] e.o \in {"add", "sub"} ->
         IF e.x = EOver THEN 7 ELSE IF e.x # OK THEN 34
         ELSE LET g == MaxOf(IntG(X(e)), IntG(Y(e))) IN
              IF IntG(e.r) > g THEN 5 ELSE IF IntG(e.r) < g THEN 6 ELSE 8
    [] e.o = "mul" -> IF e.x = EOver THEN 11 ELSE IF IsZero(X(e)) \/ IsZero(Y(e)) THEN 12
                      ELSE IF MulExact(X(e), Y(e)) THEN 9 ELSE 10
    [] e.o = "div" -> IF e.x = EOver THEN 15 ELSE IF IsZero(Y(e)) THEN 16
                      ELSE IF e.x = OK /\ CmpVal(X(e), [neg |-> X(e).neg, c |-> NMul(e.r.c, Y(e).c), f |-> e.r.f + Y(e).f]) = 0
                           THEN 13 ELSE 14
    [] e.o = "rem" -> IF IsZero(Y(e)) THEN 16 ELSE IF e.x # OK THEN 34 ELSE IF e.r.c = NZero THEN 17
                      ELSE IF SameDec(e.r, X(e)) THEN 19 ELSE 18
    [] e.o = "rnd" ->
         IF ~RoundFits(X(e), e.n) THEN 25
         ELSE IF e.n >= X(e).f THEN 23
         ELSE IF e.x # OK THEN 34
         ELSE IF e.r.c = NZero THEN 24
         ELSE LET k == CmpVal([X(e) EXCEPT !.neg = FALSE], [neg |-> FALSE, c |-> e.r.c, f |-> e.r.f])
                  d == SubRes([X(e) EXCEPT !.neg = FALSE], [neg |-> FALSE, c |-> e.r.c, f |-> e.r.f, p |-> 0])
              IN IF k < 0 /\ e.n >= 0 /\ d.c = NMul(<<5>>, NPow10(X(e).f - e.n - 1)) THEN 20
                 ELSE IF k < 0 THEN 21 ELSE 22
    [] e.o = "cmp" -> IF e.eq THEN 26 ELSE 27
    [] e.o = "hash" -> IF SameVal(X(e), Y(e)) THEN 28 ELSE 29
    [] e.o \in {"toi", "tou"} -> IF e.x = OK THEN 30 ELSE 31
    [] e.o \in {"fromi", "fromu"} -> 32
    [] e.o \in {"setneg", "setpos", "setzero", "setone", "zero", "one", "copy"} -> 33
    [] e.o = "again" -> 35
    [] OTHER -> 34

MaxReports == IF "REPORTS" \in DOMAIN IOEnv THEN 100000 ELSE 40
Bump(i) == TLCSet(i, TLCGet(i) + 1)
Report(e, bad) ==
  IF bad = {} THEN TRUE
  ELSE /\ Bump(2)
       /\ IF TLCGet(2) <= MaxReports THEN PrintT(<<"REJECT", Hist[h].h, l, bad>>) ELSE TRUE

TraceInit ==
  /\ reg = [i \in Regs |-> Zero]
  /\ ret = [op |-> "none", out |-> OK, val |-> 0]
  /\ h \in 1..Len(Hist)
  /\ l = 1

Step ==
  /\ l <= Len(Hist[h].ev)
  /\ LET e0 == Hist[h].ev[l]
         \* a repeated call comes with the event it repeats
         e == IF Has(e0, "i") THEN [orig |-> Hist[h].ev[e0.i]] @@ e0 ELSE e0
         bad == {p \in Focus : ~Hold(p, e)}
     IN /\ Report(e, bad)
        /\ Bump(3)
        /\ Bump(10 + KindOf(e))
        \* the successor state: what was observed (equal to what the action of the machine gives
        \* unless the step was rejected)
        /\ reg' = IF Has(e, "d") THEN [reg EXCEPT ![e.d] = AsDec(e.r)] ELSE reg
        /\ ret' = ret
  /\ l' = l + 1
  /\ h' = h

Summary ==
  /\ PrintT(<<"EVENTS", TLCGet(3), "HISTORIES", Len(Hist), "REJECTED", TLCGet(2)>>)
  /\ \A i \in 1..Len(Kinds) : IF TLCGet(10 + i) = 0 THEN TRUE ELSE PrintT(<<"KIND", Kinds[i], TLCGet(10 + i)>>)

ASSUME TLCSet(2, 0) /\ TLCSet(3, 0) /\ \A i \in 1..Len(Kinds) : TLCSet(10 + i, 0)
TraceSpec == TraceInit /\ [][Step]_tvars
=============================================================================
