SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Neutral Linear Corners Moves ScaleBack
CHECK_DEADLOCK FALSE
