INIT Init
NEXT Next
INVARIANTS Seg2Ok Seg3Ok SegMeshOk PlanOk Plan3Ok
