------------------------------ MODULE Contents ------------------------------
(***************************************************************************)
(* The shapes an operand may have within nine groups of storage (i groups    *)
(* before and f groups after the point) and contents that fill, touch the    *)
(* ends of, or leave empty those groups.                                     *)
(***************************************************************************)
EXTENDS Lits

CONSTANTS MaxI, MaxF, MaxG   \* integral groups, fractional groups, groups at most

Noise == <<271828182, 845904523, 536028747, 135266249, 775724709, 369995957, 496696762, 772407663, 35354759>>
\* contents given by their first, middle and last groups: leading groups at every power of ten and around
\* the values at which a division estimates and scales its quotient groups
Full == 999999999
Leads ==
  [p0 |-> <<1, 0, 0>>, p1 |-> <<10, 0, 0>>, p2 |-> <<100, 0, 0>>, p3 |-> <<1000, 0, 0>>, p4 |-> <<10000, 0, 0>>, p5 |-> <<100000, 0, 0>>,
   p6 |-> <<1000000, 0, 0>>, p7 |-> <<10000000, 0, 0>>, p8 |-> <<100000000, 0, 0>>,
   n1 |-> <<9, Full, Full>>, n2 |-> <<99, Full, Full>>, n3 |-> <<999, Full, Full>>, n4 |-> <<9999, Full, Full>>, n5 |-> <<99999, Full, Full>>,
   n6 |-> <<999999, Full, Full>>, n7 |-> <<9999999, Full, Full>>, n8 |-> <<99999999, Full, Full>>,
   h0 |-> <<500000000, 0, 0>>, h1 |-> <<499999999, Full, Full>>, h2 |-> <<500000000, 0, 1>>, t3 |-> <<333333333, 333333333, 333333333>>,
   w1 |-> <<1, 0, 1>>, w2 |-> <<2, 0, 1>>, w3 |-> <<1, Full, Full>>, w4 |-> <<999999998, Full, Full>>, w5 |-> <<Full, 0, 1>>,
   w6 |-> <<Full, Full, 999999998>>, w7 |-> <<Full, 999999998, 0>>]
Content(p, g) ==                 \* g groups, most significant first
  [k \in 1..g |->
     CASE p = "nines"  -> 999999999
       [] p = "half"   -> 500000000
       [] p = "top"    -> IF k = 1 THEN 1 ELSE 0
       [] p = "full"   -> IF k = 1 THEN 999999999 ELSE 0
       [] p = "bottom" -> IF k = g THEN 700000007 ELSE 0
       [] p = "ends"   -> IF k = 1 THEN 1 ELSE IF k = g THEN 300000003 ELSE 0
       [] p = "mixed"  -> Noise[k]
       [] p = "islands" -> IF k % 2 = 0 THEN 0 ELSE 999999999
       [] OTHER -> LET l == Leads[p] IN IF k = 1 THEN l[1] ELSE IF k = g THEN l[3] ELSE l[2]]

AllShapes == {s \in (0..MaxI) \X (0..MaxF) : s[1] + s[2] \in 1..MaxG}
\* which digits are cut from the last fractional group, and which sign, vary with the shape
Cut(s, p) == IF s[2] = 0 \/ p \notin {"nines", "full", "bottom", "ends", "mixed", "islands"} THEN 0 ELSE (s[1] + 2 * s[2]) % 3 * 4
Sgn(s, t) == (s[1] + 3 * s[2] + t) % 4 = 0
Shape(s, p, t) == LET d == Content(p, s[1] + s[2]) IN
  [neg |-> Sgn(s, t), ig |-> SubSeq(d, 1, s[1]), fg |-> SubSeq(d, s[1] + 1, s[1] + s[2]), cut |-> Cut(s, p), pad |-> 0]
=============================================================================
