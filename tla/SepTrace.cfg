INIT Init
NEXT Next
INVARIANTS Sep2 Sep3 Col3 Col2
