SPECIFICATION Spec
CONSTANTS Pal = {0, 1, 2, 4999, 5000, 9998, 9999}
          MaxLimbs = 2
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
