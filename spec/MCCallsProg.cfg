SPECIFICATION MCSpec
CONSTANTS
  Servers = {1}
  Clients = {2, 3}
  Callers = {1, 2}
  MaxReq = 1
  MaxUpd = 2
  MaxCancel = 1
  Progress = TRUE
  Blocking = FALSE
INVARIANTS Mine Once NoGap
CHECK_DEADLOCK FALSE
