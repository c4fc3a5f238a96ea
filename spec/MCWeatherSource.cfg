SPECIFICATION Spec
INVARIANTS RoundTrip Ascending
