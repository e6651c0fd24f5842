SPECIFICATION Spec
CONSTANTS
 Caps = {1, 2, 3, 4, 5, 7, 9}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Within
PROPERTIES LineSent Fresh
CHECK_DEADLOCK FALSE
