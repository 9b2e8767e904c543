SPECIFICATION Spec
VIEW View
CONSTANTS B = 4
          NA = 4
          NB = 3
          Extra = 1
          PerPattern = TRUE
INVARIANTS PartialRemainder QuotientUnits FewCorrections Result Emit
CHECK_DEADLOCK FALSE
