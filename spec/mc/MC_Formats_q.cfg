SPECIFICATION MCSpec
CONSTANTS
  MaxBits = 9
  MaxEntries = 2
  Labels <- LabelsC
  MaxCells = 2
  Addresses <- AddressesC
  Values <- ValuesC
  Base = 2
  Entry = 3
  Maps <- MapsC
  MaxLearn = 2
INVARIANTS BinRoundTrip BinCut BinStained SetRoundTrip SetCut HandleRoundTrip HandleCut DiscRoundTrip DiscCut DiscRams
CHECK_DEADLOCK FALSE
