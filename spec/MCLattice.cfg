INIT Init
NEXT Next
VIEW View
INVARIANT Objects
INVARIANT Distances
INVARIANT Boundaries
INVARIANT Again
INVARIANT Fresh
PROPERTY Refused
PROPERTY Apart
CHECK_DEADLOCK FALSE
