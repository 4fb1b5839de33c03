INIT Init
NEXT Next
INVARIANTS Cover2 Cover3 Motion2 Motion3
