SPECIFICATION Spec
CONSTANTS B = 3
          MaxU = 4
          MI = 3
          MF = 3
          MaxFU = 2
INVARIANTS AddRight SubRight CmpRight MulRight
CHECK_DEADLOCK FALSE
