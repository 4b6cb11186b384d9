SPECIFICATION USpec
CONSTANTS Sizes = {8, 30}
          Arena = 272
          MaxSeq = 3
INVARIANTS Intact CleanStart EmptyExact
PROPERTIES Steps UpgradeKeeps
CHECK_DEADLOCK FALSE
