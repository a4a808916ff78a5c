SPECIFICATION MCSpec
CONSTANTS MaxChars = 3
          MaxBytes = 4
INVARIANTS RoundTrip Exact
CHECK_DEADLOCK FALSE
