-------------------------------- MODULE Log --------------------------------
(* Log topics: messages are published with a level, 0 the most severe, 4 the least; a listener has a level and gets the messages
   at that level or more severe.  Frames are [id, pay]; the level is that of the publishing call, NoLevel for what has no level. *)
EXTENDS Naturals, Sequences, FiniteSets

NoLevel == 9

VARIABLES log,    \* committed frames with their levels
          calls,  \* running calls by caller
          ls      \* listeners

lvars == <<log, calls, ls>>

None == [x \in {} |-> x]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Remove(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Max(a, b) == IF a > b THEN a ELSE b

LogInit == log = <<>> /\ calls = None /\ ls = None

(*** Publishing ***)
Call(p, id, lvl, pay, big) ==
  /\ p \notin DOMAIN calls
  /\ calls' = Put(calls, p, [id |-> id, lvl |-> lvl, pay |-> pay, big |-> big, st |-> "run", r |-> "ok"])
  /\ UNCHANGED <<log, ls>>
Commit(p, f) ==
  LET c == calls[p] IN
  /\ c.st = "run" /\ ~c.big /\ f.id = c.id /\ f.pay = c.pay
  /\ log' = Append(log, [id |-> f.id, pay |-> f.pay, lvl |-> c.lvl])
  /\ calls' = [calls EXCEPT ![p].st = "done"] /\ UNCHANGED ls
Fail(p) == /\ calls[p].st = "run" /\ calls[p].big
           /\ calls' = [calls EXCEPT ![p].st = "done", ![p].r = "LARGE"] /\ UNCHANGED <<log, ls>>
Return(p, r) == /\ p \in DOMAIN calls /\ calls[p].st = "done" /\ r = calls[p].r
                /\ calls' = Remove(calls, p) /\ UNCHANGED <<log, ls>>

(*** Listening ***)
Open(h, lvl, init, iter) ==
  /\ ls' = Put(ls, h, [lvl |-> lvl, init |-> init, iter |-> iter, st |-> "opening", started |-> FALSE, s |-> 0, c |-> 0, pos |-> 0, low |-> 0, busy |-> FALSE])
  /\ UNCHANGED <<log, calls>>
\* the starting point is fixed while the listener is being created
Start(h) ==
  LET n == Len(log) IN
  /\ ls[h].st = "opening" /\ ~ls[h].started
  /\ ls' = [ls EXCEPT ![h].started = TRUE, ![h].low = n,
                      ![h].s = CASE ls[h].init = "oldest" -> 1 [] ls[h].init = "recent" -> Max(n, 1) [] ls[h].init = "new" -> n + 1,
                      ![h].c = IF n = 0 THEN 0 ELSE IF ls[h].init = "oldest" THEN 1 ELSE n]
  /\ UNCHANGED <<log, calls>>
Opened(h) == ls[h].st = "opening" /\ ls[h].started /\ ls' = [ls EXCEPT ![h].st = "open"] /\ UNCHANGED <<log, calls>>

Wanted(h, n) == log[n].lvl <= ls[h].lvl
Fresh(h) == {n \in Max(ls[h].pos + 1, ls[h].s)..Len(log) : Wanted(h, n)}
\* one put on an existing message looks at that first
Given(h) == ls[h].pos = 0 /\ ls[h].c > 0 /\ ls[h].init # "new" /\ Wanted(h, ls[h].c)
\* which message may be next; one that wants the newest gets what was the newest at some moment since it last was idle
Choices(h) ==
  IF Given(h) THEN {ls[h].c}
  ELSE IF ls[h].iter = "next" THEN {n \in Fresh(h) : \A m \in Fresh(h) : n <= m}
  ELSE {n \in Fresh(h) : n >= ls[h].low}
Callback(h, id, pay, lvl) ==
  /\ ls[h].started /\ ls[h].st # "closed" /\ ~ls[h].busy
  /\ \E n \in Choices(h) : /\ log[n].id = id /\ log[n].pay = pay /\ log[n].lvl = lvl
                           /\ ls' = [ls EXCEPT ![h].pos = n, ![h].busy = TRUE]
  /\ UNCHANGED <<log, calls>>
CallbackEnd(h) == ls[h].busy /\ ls' = [ls EXCEPT ![h].busy = FALSE, ![h].low = Len(log)] /\ UNCHANGED <<log, calls>>
Owed(h) == Given(h) \/ (IF ls[h].iter = "next" THEN Fresh(h) # {} ELSE Len(log) \in Fresh(h))

Close(h) == ls[h].st = "open" /\ ls' = [ls EXCEPT ![h].st = "closing"] /\ UNCHANGED <<log, calls>>
Closed(h, r) == /\ ls[h].st = "closing" /\ ~ls[h].busy /\ r = "ok"
                /\ ls' = [ls EXCEPT ![h].st = "closed"] /\ UNCHANGED <<log, calls>>
\* closing from within its own callback is refused
SelfClose(h, r) == ls[h].busy /\ r = "EDEADLK" /\ UNCHANGED lvars
\* a message handed over is what was published for as long as it is kept
Kept(id, pay) == (\E n \in 1..Len(log) : log[n].id = id /\ log[n].pay = pay) /\ UNCHANGED lvars

\* nothing will happen any more
Quiet == /\ calls = None
         /\ \A h \in DOMAIN ls : /\ ls[h].st \in {"open", "closed"} /\ ~ls[h].busy
                                 /\ ls[h].st = "open" => ~Owed(h)
         /\ UNCHANGED lvars
=============================================================================
