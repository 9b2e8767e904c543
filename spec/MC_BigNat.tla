----------------------------- MODULE MC_BigNat ------------------------------
(***************************************************************************)
(* Checks BigNat: (1) the fast operators agree with the pure definitions,   *)
(* (2) the pure definitions satisfy the laws of arithmetic.  States are     *)
(* pairs of naturals with limbs from a palette.                             *)
(***************************************************************************)
EXTENDS BigNat, TLC
CONSTANTS Pal, MaxLimbs
VARIABLES a, b
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Nats == {s \in SeqsUpTo(Pal, MaxLimbs) : IsBigNat(s)}
Init == a \in Nats /\ b \in Nats
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Agree ==
  /\ NAdd(a, b) = PureAdd(a, b)
  /\ NMul(a, b) = PureMul(a, b)
  /\ NCmp(a, b) = PureCmp(a, b)
  /\ NCmp(a, b) >= 0 => NSub(a, b) = PureSub(a, b)
  /\ b # <<>> => NDivMod(a, b) = PureDivMod(a, b)
  /\ NDigits(a) = PureDigits(a)
  /\ LET n == PureDigits(a) + 3 IN
       /\ NToDigits(a, n) = PureToDigits(a, n)
       /\ NOfDigits(NToDigits(a, n)) = a
       /\ PureOfDigits(PureToDigits(a, n)) = a
       /\ \A k \in 0..9 : NPow10(k) = PurePow10(k)
       /\ \A k \in {0, 1, 9, 10, 9999, 10000, 123456789, 2147483647} : NOfInt(k) = PureOfInt(k)
Laws ==
  /\ IsBigNat(PureAdd(a, b)) /\ IsBigNat(PureMul(a, b))
  /\ PureAdd(a, b) = PureAdd(b, a)
  /\ PureMul(a, b) = PureMul(b, a)
  /\ PureSub(PureAdd(a, b), b) = a
  /\ PureMul(PureAdd(a, <<1>>), b) = PureAdd(PureMul(a, b), b)
  /\ b # <<>> => LET d == PureDivMod(a, b)
                 IN /\ PureCmp(d[2], b) < 0
                    /\ PureAdd(PureMul(d[1], b), d[2]) = a
=============================================================================
