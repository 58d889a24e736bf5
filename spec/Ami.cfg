SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Conserved Gone Sound Ordered
PROPERTY Termination
