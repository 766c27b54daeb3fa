SPECIFICATION MCSpec
CONSTANTS
  MaxBits = 12
  MaxEntries = 3
  Labels <- LabelsC
  MaxCells = 3
  Addresses <- AddressesC
  Values <- ValuesC
  Base = 3
  Entry = 3
  Maps <- MapsC
  MaxLearn = 3
INVARIANTS BinRoundTrip BinCut BinStained SetRoundTrip SetCut HandleRoundTrip HandleCut DiscRoundTrip DiscCut DiscRams
CHECK_DEADLOCK FALSE
