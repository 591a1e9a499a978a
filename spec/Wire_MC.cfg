SPECIFICATION Spec
CONSTANTS
  MaxEntries = 2
  MaxCps = 2
  Wide = 5
INVARIANTS RoundTrip NoPrefix Cuts Checksum Utf8Only TextBack Unwrapped
