INIT Init
NEXT Next
INVARIANTS PolyOk SolidOk MeshOk
