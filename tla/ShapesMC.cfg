INIT Init
NEXT Next
INVARIANTS Agree Separation Containment Balls Rotations
