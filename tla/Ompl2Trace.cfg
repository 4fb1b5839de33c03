INIT Init
NEXT Next
INVARIANTS Accepted Converted Told Counted
