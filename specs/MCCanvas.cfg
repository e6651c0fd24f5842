SPECIFICATION Spec
CONSTANT Frames <- FramesQ
VIEW View
INVARIANTS Inside TurnsOnto TwinRight
PROPERTIES RotationKeeps Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
