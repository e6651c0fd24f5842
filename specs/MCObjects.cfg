SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Within
PROPERTIES Independent Alone1 Alone2
CHECK_DEADLOCK FALSE
