INIT Init
NEXT Next
INVARIANT Fk
