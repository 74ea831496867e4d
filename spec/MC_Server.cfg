SPECIFICATION Spec
INVARIANT Converged
INVARIANT NoInvention
INVARIANT Emit
PROPERTY Rests
CHECK_DEADLOCK FALSE
