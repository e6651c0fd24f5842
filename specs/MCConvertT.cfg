SPECIFICATION Spec
CONSTANTS MaxW = 9
MaxH = 3
Count = 3
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
