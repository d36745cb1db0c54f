SPECIFICATION Spec
INVARIANT Loadable
INVARIANT Printed
CHECK_DEADLOCK FALSE
