INIT Init
NEXT Next
INVARIANTS Placed Sampled Loaded
