INIT Init
NEXT Next
INVARIANTS Found Solution InterpPlane InterpSpace
