SPECIFICATION Spec
CONSTANTS
  MaxEntries = 3
  MaxCps = 4
  Wide = 60
INVARIANTS RoundTrip NoPrefix Cuts Checksum Utf8Only TextBack Unwrapped
