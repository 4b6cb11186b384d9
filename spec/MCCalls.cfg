SPECIFICATION MCSpec
CONSTANTS
  Servers = {1}
  Clients = {2, 3}
  Callers = {1, 2}
  MaxReq = 2
  MaxUpd = 1
  MaxCancel = 1
  Progress = FALSE
  Blocking = TRUE
INVARIANTS Mine Once NoGap
CHECK_DEADLOCK FALSE
