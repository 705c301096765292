SPECIFICATION Spec
INVARIANT NoDeadlock
INVARIANT Exclusive
