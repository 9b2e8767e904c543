------------------------------ MODULE Scanner -------------------------------
(***************************************************************************)
(* Parsing as a machine that reads a text from left to right.                *)
(*                                                                          *)
(* Dec.ParseRes says what a whole text means.  Here the text is read         *)
(* character by character by an automaton that keeps only counters and the   *)
(* coefficient; Agree says that both give the same answer for every text     *)
(* the model reaches.  Texts are built from chunks (runs of digits of        *)
(* lengths around the limits and the group size, points, signs, exponents,   *)
(* foreign characters), and one text for every class of scanner states and   *)
(* of the way it was entered is exported as a program.                       *)
(***************************************************************************)
EXTENDS Dec, TLC

CONSTANTS Runs,      \* lengths of the runs of digits
          ExpRuns,   \* exponents written after e, as texts of digits: indexes into ExpText
          Depth,     \* chunks at most
          Fine       \* how finely the counters are classed
VARIABLES text, txt, st, tags, n
vars == <<text, txt, st, tags, n>>

-----------------------------------------------------------------------------
(* the automaton: phases                                                     *)
(*   start   nothing yet          sign   after the sign                      *)
(*   int     digits, no point     dot    a point and no digit                *)
(*   frac    a point and digits   e      after the letter                    *)
(*   esign   after its sign       exp    exponent digits       bad  refused  *)
St0 == [ph |-> "start", neg |-> FALSE, nd |-> 0, fd |-> 0, m |-> NZero, eneg |-> FALSE, e |-> 0]
DigitIn(s, d) ==
  CASE s.ph \in {"start", "sign", "int"} -> [s EXCEPT !.ph = "int", !.nd = @ + 1, !.m = NAdd(NScale(@, 1), NOfInt(d))]
    [] s.ph \in {"dot", "frac"} -> [s EXCEPT !.ph = "frac", !.nd = @ + 1, !.fd = @ + 1, !.m = NAdd(NScale(@, 1), NOfInt(d))]
    [] s.ph \in {"e", "esign", "exp"} -> [s EXCEPT !.ph = "exp", !.e = MinOf(@ * 10 + d, 1000)]
    [] OTHER -> s
Read(s, ch) ==
  IF s.ph = "bad" THEN s
  ELSE IF IsDigit(ch) THEN DigitIn(s, ch - 48)
  ELSE IF ch \in {43, 45} /\ s.ph = "start" THEN [s EXCEPT !.ph = "sign", !.neg = (ch = 45)]
  ELSE IF ch \in {43, 45} /\ s.ph = "e" THEN [s EXCEPT !.ph = "esign", !.eneg = (ch = 45)]
  ELSE IF ch = 46 /\ s.ph \in {"start", "sign"} THEN [s EXCEPT !.ph = "dot"]
  ELSE IF ch = 46 /\ s.ph = "int" THEN [s EXCEPT !.ph = "frac"]
  ELSE IF ch \in {101, 69} /\ s.ph \in {"int", "frac"} THEN [s EXCEPT !.ph = "e"]
  ELSE [s EXCEPT !.ph = "bad"]
RECURSIVE Feed(_, _, _)
Feed(s, t, i) == IF i > Len(t) THEN s ELSE Feed(Read(s, t[i]), t, i + 1)

Exp(s) == IF s.eneg THEN 0 - s.e ELSE s.e
Fr(s)  == s.fd - Exp(s)
Tot(s) == IF Fr(s) <= 0 THEN s.nd - Fr(s) ELSE MaxOf(s.nd, Fr(s))
Answer(s) ==
  IF s.ph \notin {"int", "frac", "exp"} \/ Exp(s) > MaxDigits \/ Exp(s) < -MaxNegExp \/ Tot(s) > MaxDigits THEN Fail(ESyntax)
  ELSE Res(s.neg, NScale(s.m, MaxOf(0 - Fr(s), 0)), MaxOf(Fr(s), 0))

-----------------------------------------------------------------------------
(* chunks *)
Ch == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Run(d, k) == [i \in 1..k |-> 48 + d]
\* digits that tell positions apart
Mixed(k) == [i \in 1..k |-> 49 + ((i * 7) % 9)]
RECURSIVE Str(_, _)
Str(t, i) == IF i > Len(t) THEN "" ELSE
  (CASE t[i] = 43 -> "+" [] t[i] = 45 -> "-" [] t[i] = 46 -> "." [] t[i] = 101 -> "e" [] t[i] = 69 -> "E"
     [] t[i] = 47 -> "/" [] t[i] = 58 -> ":" [] t[i] = 120 -> "x" [] OTHER -> Ch[t[i] - 47]) \o Str(t, i + 1)
ExpText == <<<<>>, <<48>>, <<49>>, <<56>>, <<57>>, <<49, 48>>, <<50, 55>>, <<50, 57>>, <<51, 48>>, <<51, 49>>, <<54, 53>>, <<54, 54>>,
             <<48, 48, 48, 51>>, <<49, 50, 56>>, <<50, 53, 54>>, <<50, 53, 55>>, <<49, 48, 48, 48>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 55>>, <<49, 56>>, <<51, 54>>, <<53, 52>>,
             Run(0, 40) \o <<51>>, Run(0, 130) \o <<49, 50>>, Run(0, 260) \o <<49>>, Run(9, 120)>>
\* <<tag, bytes>>
Chunks ==
  {<<"sign", <<43>>>>, <<"sign", <<45>>>>, <<"dot", <<46>>>>, <<"bad", <<47>>>>, <<"bad", <<58>>>>, <<"bad", <<120>>>>}
  \cup {<<"zeros", Run(0, k)>> : k \in Runs} \cup {<<"nines", Run(9, k)>> : k \in Runs} \cup {<<"mixed", Mixed(k)>> : k \in Runs}
  \cup {<<"exp", <<c>> \o s \o ExpText[k]>> : c \in {101, 69}, s \in {<<>>, <<43>>, <<45>>}, k \in ExpRuns}

Init == text = <<>> /\ txt = "" /\ st = St0 /\ tags = <<>> /\ n = 0
Read1 == \E c \in Chunks :
  /\ n < Depth /\ st.ph # "bad"
  \* anything may be misplaced once: signs, points and letters only where they can say something
  /\ c[1] = "exp" => n >= 1
  /\ c[1] \in {"zeros", "nines", "mixed"} => st.ph \notin {"exp", "e", "esign"} /\ Len(text) < 70
                                           /\ (tags # <<>> => tags[Len(tags)] # c[1])
  /\ text' = text \o c[2]
  /\ txt' = txt \o Str(c[2], 1)
  /\ st' = Feed(st, c[2], 1)
  /\ tags' = Append(tags, c[1])
  /\ n' = n + 1
Next == Read1
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Agree == Answer(st) = ParseRes(text)
Counted == st.ph # "bad" => /\ st.fd <= st.nd
                            /\ NDigits(st.m) <= st.nd
Step(k) == IF k < 0 THEN <<-1, FALSE, FALSE, 0>> ELSE <<Groups(k), k % G = 0, Fine /\ k % G = 1, IF k \in {29, 30, 31, 64, 65, 66} THEN k ELSE 0>>
View == <<n, IF Fine THEN tags ELSE IF n = 0 THEN <<>> ELSE <<tags[n]>>, st.ph, st.neg, Step(st.nd - st.fd), Step(st.fd), Step(Fr(st)), IF Fine THEN Step(Tot(st)) ELSE <<>>, Step(st.e), st.eneg,
          Answer(st).out, st.m = NZero>>
Emit == n > 0 => PrintT("PROG parse 1 -7.25;parse 2 " \o txt \o ";parse 1 " \o txt \o ";print 1 -1;rt 1;print 1 31;keep 3 " \o txt
                        \o ";add 4 1 2;toi 1;cmp 1 2;parse 1 " \o txt \o "x;parse 1 3e1;print 1 -1")
=============================================================================
