INIT Init
NEXT Next
VIEW View0
INVARIANT PathOk
INVARIANT BasisOk
INVARIANT NumberOk
INVARIANT CellOk
INVARIANT ShapeOk
INVARIANT AtomOk
PROPERTY Apart
CHECK_DEADLOCK FALSE
