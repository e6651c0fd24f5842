SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS NoHeap Sound OthersMay
CHECK_DEADLOCK FALSE
