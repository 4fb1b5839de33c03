INIT Init
NEXT Next
INVARIANTS Sampled Spread Carried JoinedToClosest TotalIsSum
