SPECIFICATION Spec
CONSTANT B = {0, 1, 127, 128, 255}
INVARIANTS Involution Relation SameBytes
CHECK_DEADLOCK FALSE
