SPECIFICATION Spec
VIEW View
CONSTANTS NR = 3
          Pal = {0, 1, 999999999}
          MI = 2
          MF = 2
          Total = 3
          Cuts = {0, 4}
          Pads = {0, 1}
          Loads = 2
          Depth = 1
          Ops = {"add", "sub"}
          Incrs = {0}
          Detail = 1
          Suffix = ";cmp 1 2"
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
