SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Agree TopoOk BackFront
CHECK_DEADLOCK FALSE
