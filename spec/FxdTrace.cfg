CONSTANT NR = 8
INIT TraceInit
NEXT Step
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
