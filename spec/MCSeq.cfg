SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxL = 1
  Ms = {1, 2}
  Efcs = {1, 3}
  Flags <- FlagsSome
  NPerm = 40
  Seed = 1
  Emit = 0
INVARIANTS TypeOK P02_WellFormed P09_EntryAtTop P09_Linked P04_Sound P05_Complete P05_Closed P06_Filter
PROPERTIES P08_Displaced P09_Monotone
CHECK_DEADLOCK FALSE
