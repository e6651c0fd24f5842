SPECIFICATION TraceSpec
INVARIANT NoHeap
CHECK_DEADLOCK TRUE
