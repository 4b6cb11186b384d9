SPECIFICATION Spec
CONSTANTS Sizes = {0, 8, 30}
          Arena = 272
          MaxSeq = 4
INVARIANTS CommittedIntact CleanStart
PROPERTIES Steps
CHECK_DEADLOCK FALSE
