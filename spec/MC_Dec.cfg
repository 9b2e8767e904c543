SPECIFICATION Spec
CONSTANTS NR = 1
          Pal = {0, 1, 500000000, 999999999}
          MI = 6
          MF = 5
          Total = 9
          Cuts = {0, 4}
          Incrs = {0, 4, 30}
          Ns <- NsWide
          Sample = 1
INVARIANTS OrderLaws AddLaws MulLaws DivLaws RemLaws RoundLaws TextLaws IntLaws
CHECK_DEADLOCK FALSE
