SPECIFICATION Spec
CONSTANT Frames <- FramesT
VIEW View
INVARIANTS Inside TurnsOnto TwinRight
PROPERTIES RotationKeeps Grows
CHECK_DEADLOCK FALSE
