SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS OnceEach Prefix
PROPERTY LastByte
CHECK_DEADLOCK FALSE
