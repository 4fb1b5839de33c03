INIT Init
NEXT Next
INVARIANTS Rigid Rotation Vector
