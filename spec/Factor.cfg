SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Accepted Looked Unique Sensitive SensitiveDer
PROPERTY Termination
