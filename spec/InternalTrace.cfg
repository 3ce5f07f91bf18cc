INIT Init
NEXT Next
ALIAS Where
