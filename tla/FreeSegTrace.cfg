INIT Init
NEXT Next
INVARIANTS Plane Space Across
