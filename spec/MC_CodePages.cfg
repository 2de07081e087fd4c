SPECIFICATION MCSpec
INVARIANTS Chars Lower Upper SetsAreLower Bytewise Utf8RoundTrip Utf8TwoBytes
CHECK_DEADLOCK FALSE
