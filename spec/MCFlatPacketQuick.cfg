SPECIFICATION Spec
INVARIANTS RoundTrip
CONSTANTS
  Texts <- MCTexts
  Pays <- MCPays
  MaxBlocks = 2
  MaxPerBlock = 2
CHECK_DEADLOCK FALSE
