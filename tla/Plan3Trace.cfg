INIT Init
NEXT Next
INVARIANTS C01 C02 C03 C04 C05 C06 JoinedSlices C07 D05 D02 D07
