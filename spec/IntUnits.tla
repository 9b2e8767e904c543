------------------------------ MODULE IntUnits ------------------------------
(***************************************************************************)
(* Machine integers into units and back, step by step, with small units        *)
(* (base B, even) and small words (W bits): three units hold a word, as three   *)
(* units of nine digits hold 64 bits.                                         *)
(*                                                                          *)
(*   v      the integer (path "from": it is turned into units and back)        *)
(*   neg, fu, u   the decimal: sign, fractional units, units, least first      *)
(*   w      what is left of the magnitude, while units are split off           *)
(*   acc, i the integer being put together, units done                         *)
(*   sgd    the target is signed                                              *)
(*   ph     "mag", "split", "sign", "range", "round", "sum", "done", "refused"  *)
(*                                                                          *)
(* NoWrap: nothing computed on the way leaves its word (the least signed        *)
(* integer has no magnitude; sums go in the direction of the sign).            *)
(* HighEmpty: units above the third are empty when the range test passed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS B, W, MI, MF
VARIABLES path, sgd, v, neg, fu, u, w, acc, i, ph
vars == <<path, sgd, v, neg, fu, u, w, acc, i, ph>>

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Least == 0 - Pow(2, W - 1)
Most == Pow(2, W - 1) - 1
UMost == Pow(2, W) - 1
RECURSIVE Val(_, _)
Val(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + B * Val(s, k + 1)
Lo == IF sgd THEN Least ELSE 0
Hi == IF sgd THEN Most ELSE UMost
At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0

Init ==
  /\ sgd \in BOOLEAN /\ w = 0 /\ acc = 0 /\ i = 0
  /\ \/ path = "from" /\ v \in Lo..Hi /\ neg = FALSE /\ fu = 0 /\ u = <<>> /\ ph = "mag"
     \/ /\ path = "to" /\ v = 0 /\ ph = "range"
        /\ \E k \in 0..MI, f \in 0..MF : k + f > 0 /\ fu = f /\ u \in [1..(k + f) -> 0..(B - 1)]
        /\ neg \in BOOLEAN
        /\ neg => \E k \in 1..Len(u) : u[k] # 0              \* no negative zeros

Magnitude ==
  /\ ph = "mag"
  /\ IF v = Least THEN w' = 0 /\ ph' = "sign"              \* has no magnitude: its units are known
     ELSE w' = (IF v < 0 THEN 0 - v ELSE v) /\ ph' = "split"
  /\ u' = IF v = Least THEN <<(0 - Least) % B, ((0 - Least) \div B) % B, (0 - Least) \div (B * B)>> ELSE u
  /\ UNCHANGED <<path, sgd, v, neg, fu, acc, i>>
Split ==
  /\ ph = "split"
  /\ IF w = 0 THEN ph' = "sign" /\ UNCHANGED <<u, w>>
     ELSE u' = Append(u, w % B) /\ w' = w \div B /\ UNCHANGED ph
  /\ UNCHANGED <<path, sgd, v, neg, fu, acc, i>>
Sign == /\ ph = "sign" /\ neg' = (v < 0) /\ ph' = "range" /\ UNCHANGED <<path, sgd, v, fu, u, w, acc, i>>

\* compared as decimals, before rounding: by numbers with the fraction
Num == LET a == Val(u, 1) IN IF neg THEN 0 - a ELSE a          \* in units of B^-fu
Range ==
  /\ ph = "range"
  /\ ph' = IF Num < Lo * Pow(B, fu) \/ Num > Hi * Pow(B, fu) \/ (~sgd /\ neg) THEN "refused" ELSE IF fu > 0 THEN "round" ELSE "sum"
  /\ UNCHANGED <<path, sgd, v, neg, fu, u, w, acc, i>>
\* the highest fractional unit decides; a carry goes up through full units
RECURSIVE Up(_, _)
Up(s, k) == IF k > Len(s) THEN Append(s, 1) ELSE IF s[k] = B - 1 THEN Up([s EXCEPT ![k] = 0], k + 1) ELSE [s EXCEPT ![k] = @ + 1]
Round ==
  /\ ph = "round"
  /\ LET whole == SubSeq(u, fu + 1, Len(u)) IN u' = IF u[fu] >= B \div 2 THEN Up(whole, 1) ELSE whole
  /\ fu' = 0 /\ ph' = "sum"
  /\ neg' = (neg /\ \E k \in 1..Len(u') : u'[k] # 0)
  /\ UNCHANGED <<path, sgd, v, w, acc, i>>
Sum ==
  /\ ph = "sum"
  /\ IF i = 3 THEN ph' = "done" /\ UNCHANGED <<acc, i>>
     ELSE /\ acc' = (IF neg THEN acc - At(u, i + 1) * Pow(B, i) ELSE acc + At(u, i + 1) * Pow(B, i))
          /\ i' = i + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<path, sgd, v, neg, fu, u, w>>
Next == Magnitude \/ Split \/ Sign \/ Range \/ Round \/ Sum
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fits == Pow(B, 3) > UMost /\ Pow(B, 2) <= Most
NoWrap == /\ Fits
          /\ w >= 0 /\ w <= Hi
          /\ acc >= Lo /\ acc <= Hi
          /\ (ph = "sum" /\ i < 3) => LET t == At(u, i + 1) * Pow(B, i) IN IF neg THEN 0 - t >= Lo ELSE t <= Hi
HighEmpty == ph \in {"sum", "done"} => \A k \in 4..Len(u) : u[k] = 0
Back == path = "from" => ph # "refused" /\ (ph = "done" => acc = v)
\* the value itself, before the library's steps
X == Val(u, 1)
Halves == ph = "round" =>
  LET r == (2 * X + Pow(B, fu)) \div (2 * Pow(B, fu)) IN
  LET whole == SubSeq(u, fu + 1, Len(u)) IN Val(IF u[fu] >= B \div 2 THEN Up(whole, 1) ELSE whole, 1) = r
\* an accepted decimal never rounds out of the range
Stays == ph = "sum" => Num >= Lo /\ Num <= Hi
Summed == ph = "done" => acc = Num
Ends == <>(ph \in {"done", "refused"})
=============================================================================
