-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* How the library computes: the algorithms on units, at a base B small      *)
(* enough for TLC to run through every operand.  A magnitude is              *)
(*     [iu, fu, u]   u a sequence of iu+fu units, least significant first    *)
(* The value in units of B^-fu is a native integer here, so the algorithms   *)
(* are compared with plain arithmetic.  MaxU units fit the storage.          *)
(*                                                                          *)
(* The long division is not here: it is a machine of its own (LongDiv).      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS B, MaxU

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
At0(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Horner(_, _)
Horner(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + B * Horner(s, i + 1)
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE B * Pow(k - 1)
ValueAt(x, fu) == Horner(x.u, 1) * Pow(fu - x.fu)        \* in units of B^-fu, fu >= x.fu

\* units of the integral part without leading zero units
RECURSIVE Trim(_, _)
Trim(x, i) == IF i = 0 THEN 0 ELSE IF x.u[x.fu + i] # 0 THEN i ELSE Trim(x, i - 1)
IU(x) == Trim(x, x.iu)

-----------------------------------------------------------------------------
(* addition: low segment copied, common segment added, high segment takes the carry *)
RECURSIVE AddWalk(_, _, _, _, _, _, _)
AddWalk(x, y, dx, dy, i, n, carry) ==    \* position i of n; dx, dy: units by which x, y are shifted up
  IF i > n THEN [u |-> <<>>, carry |-> carry]
  ELSE LET t == At0(x, i - dx) + At0(y, i - dy) + carry
           r == AddWalk(x, y, dx, dy, i + 1, n, t \div B)
       IN [u |-> <<t % B>> \o r.u, carry |-> r.carry]
AddAbs(x, y) ==
  LET fu == MaxI(x.fu, y.fu)
      iu == MaxI(IU(x), IU(y))
  IN IF iu + fu > MaxU THEN [over |-> TRUE]
     ELSE LET w == AddWalk(SubSeq(x.u, 1, x.fu + IU(x)), SubSeq(y.u, 1, y.fu + IU(y)),
                           fu - x.fu, fu - y.fu, 1, iu + fu, 0)
          IN IF w.carry > 0 /\ iu + fu = MaxU THEN [over |-> TRUE]
             ELSE LET u == IF w.carry > 0 THEN Append(w.u, w.carry) ELSE w.u
                      r == [iu |-> Len(u) - fu, fu |-> fu, u |-> u]
                  IN [over |-> FALSE, r |-> [iu |-> IU(r), fu |-> fu, u |-> SubSeq(u, 1, fu + IU(r))]]

(* subtraction: borrow through all units; a borrow out of the top means the result is *)
(* negative, and it is complemented                                                   *)
RECURSIVE SubWalk(_, _, _, _, _, _, _)
SubWalk(x, y, dx, dy, i, n, borrow) ==
  IF i > n THEN [u |-> <<>>, borrow |-> borrow]
  ELSE LET t == At0(x, i - dx) - At0(y, i - dy) - borrow
           r == SubWalk(x, y, dx, dy, i + 1, n, IF t < 0 THEN 1 ELSE 0)
       IN [u |-> <<IF t < 0 THEN t + B ELSE t>> \o r.u, borrow |-> r.borrow]
SubAbs(x, y) ==
  LET fu == MaxI(x.fu, y.fu)
      iu == MaxI(IU(x), IU(y))
  IN IF iu + fu > MaxU THEN [over |-> TRUE]
     ELSE LET w == SubWalk(SubSeq(x.u, 1, x.fu + IU(x)), SubSeq(y.u, 1, y.fu + IU(y)),
                           fu - x.fu, fu - y.fu, 1, iu + fu, 0)
              c == SubWalk(<<>>, w.u, 0, 0, 1, iu + fu, 0)
              u == IF w.borrow = 1 THEN c.u ELSE w.u
              r == [iu |-> iu, fu |-> fu, u |-> u]
          IN [over |-> FALSE, neg |-> w.borrow = 1,
              r |-> [iu |-> IU(r), fu |-> fu, u |-> SubSeq(u, 1, fu + IU(r))]]

(* comparison: leading zero units skipped, then unit by unit from the top, then the tails *)
RECURSIVE CmpWalk(_, _, _, _, _)
CmpWalk(x, y, dx, dy, i) ==
  IF i = 0 THEN 0
  ELSE IF At0(x, i - dx) < At0(y, i - dy) THEN -1
  ELSE IF At0(x, i - dx) > At0(y, i - dy) THEN 1
  ELSE CmpWalk(x, y, dx, dy, i - 1)
CmpAbs(x, y) ==
  IF IU(x) # IU(y) THEN (IF IU(x) < IU(y) THEN -1 ELSE 1)
  ELSE LET fu == MaxI(x.fu, y.fu)
       IN CmpWalk(x.u, y.u, fu - x.fu, fu - y.fu, fu + IU(x))

(* hashing: the units without leading and trailing zero ones, told how many are integral *)
RECURSIVE LowZeros(_, _)
LowZeros(x, k) == IF k < x.fu /\ x.u[k + 1] = 0 THEN LowZeros(x, k + 1) ELSE k
HashOf(x) == LET z == LowZeros(x, 0) IN <<IU(x), x.fu - z, SubSeq(x.u, z + 1, x.fu + IU(x))>>

(* multiplication: schoolbook; when fractional units are dropped, partial products below   *)
(* the last kept unit are skipped, and of those just below it only the carry is kept       *)
RECURSIVE MulRow(_, _, _, _, _, _)
MulRow(x, yv, j, shift, i, s) ==         \* s = [u, carry]; j 0-based row; i 0-based column
  IF i = Len(x) THEN s
  ELSE LET k == i + j - shift IN
       IF k < -1 THEN MulRow(x, yv, j, shift, i + 1, s)
       ELSE IF k = -1 THEN MulRow(x, yv, j, shift, i + 1,
                                  IF x[i + 1] * yv < B THEN s ELSE [s EXCEPT !.carry = (x[i + 1] * yv) \div B])
       ELSE LET t == x[i + 1] * yv + s.u[k + 1] + s.carry
            IN MulRow(x, yv, j, shift, i + 1, [u |-> [s.u EXCEPT ![k + 1] = t % B], carry |-> t \div B])
RECURSIVE MulRows(_, _, _, _, _)
MulRows(x, y, j, shift, u) ==
  IF j = Len(y) THEN [over |-> FALSE, u |-> u]
  ELSE LET s == MulRow(x, y[j + 1], j, shift, 0, [u |-> u, carry |-> 0])
           k == Len(x) - 1 + j - shift           \* last column
       IN IF k < -1 THEN MulRows(x, y, j + 1, shift, u)
          ELSE IF k + 1 < MaxU THEN MulRows(x, y, j + 1, shift, [s.u EXCEPT ![k + 2] = s.carry])
          ELSE IF s.carry > 0 THEN [over |-> TRUE] ELSE MulRows(x, y, j + 1, shift, s.u)
\* ig: units that the integral digits of the operands need together
MulAbs(x, y, ig, maxf) ==
  IF ig > MaxU THEN [over |-> TRUE]
  ELSE LET fu == MinI(MinI(x.fu + y.fu, maxf), MaxU - ig)
           shift == x.fu + y.fu - fu
           m == MulRows(SubSeq(x.u, 1, x.fu + IU(x)), SubSeq(y.u, 1, y.fu + IU(y)), 0, shift, [i \in 1..MaxU |-> 0])
       IN IF m.over THEN [over |-> TRUE] ELSE [over |-> FALSE, fu |-> fu, u |-> m.u]
=============================================================================
