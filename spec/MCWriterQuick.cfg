SPECIFICATION Spec
INVARIANTS OncePerWrite TransportSeq MonoSorted WriterSeq Truthful IfEmpty
CONSTANTS
  Procs = {1, 2}
  Calls = 1
CHECK_DEADLOCK FALSE
