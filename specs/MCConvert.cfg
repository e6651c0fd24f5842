SPECIFICATION Spec
CONSTANTS MaxW = 9
MaxH = 2
Count = 2
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
