INIT Init
NEXT Next
INVARIANTS Plane Space Contact2 Contact3
