INIT Init
NEXT Next
INVARIANTS Parsed Bodies Robot World Converted Derived Stored Routine
