SPECIFICATION USpec
CONSTANTS Sizes = {8, 30, 88}
          Arena = 272
          MaxSeq = 4
INVARIANTS Intact CleanStart EmptyExact
PROPERTIES Steps UpgradeKeeps
CHECK_DEADLOCK FALSE
