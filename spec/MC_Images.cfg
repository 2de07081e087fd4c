SPECIFICATION MCSpec
CONSTANTS Values = {0, 1, 36, 128, 255}
 MaxBytes = 4
INVARIANTS Unpacks RoundTrip Size Scaled Layers
CHECK_DEADLOCK FALSE
