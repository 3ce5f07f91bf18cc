CONSTANT Basis = {0, 1, 2, 63, 64, 127, 128, 200, 254, 255}
INIT Init
NEXT Next
INVARIANT Correct
