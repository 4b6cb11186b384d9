SPECIFICATION Spec
INVARIANTS RoundTrip
CONSTANTS
  Texts <- MCTexts
  Pays <- MCPays
  MaxBlocks = 3
  MaxPerBlock = 2
CHECK_DEADLOCK FALSE
