INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Current Valid OwnWork
