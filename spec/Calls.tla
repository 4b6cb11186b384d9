------------------------------- MODULE Calls -------------------------------
(* Remote calls over a shared log: clients send requests, servers send updates for them, the last of which is marked done, and
   requests can be cancelled.  A plain call has exactly one kind of update, done; a progressive call has any number before it.
   Frames are [id, k, rid, pay, done] with k in {"request", "update", "cancel", "other"}; rid names the request meant. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES log,    \* committed frames
          calls,  \* running calls by caller
          hs,     \* servers and clients
          now

cvars == <<log, calls, hs, now>>

None == [x \in {} |-> x]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Remove(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Min(S) == CHOOSE n \in S : \A m \in S : n <= m

CallsInit == log = <<>> /\ calls = None /\ hs = None /\ now = 0

(*** Handles ***)
\* can: a server with a handler for cancellations
OpenCall(h, kind, can) ==
  /\ hs' = Put(hs, h, [kind |-> kind, can |-> can, st |-> "opening", started |-> FALSE, pos |-> 0, out |-> {}, canc |-> {}, pend |-> 0, busy |-> FALSE])
  /\ UNCHANGED <<log, calls, now>>
\* what is committed from here on concerns the handle
Start(h) ==
  /\ hs[h].st = "opening" /\ ~hs[h].started
  /\ hs' = [hs EXCEPT ![h].started = TRUE, ![h].pos = Len(log)] /\ UNCHANGED <<log, calls, now>>
OpenRet(h) == hs[h].st = "opening" /\ hs[h].started /\ hs' = [hs EXCEPT ![h].st = "open"] /\ UNCHANGED <<log, calls, now>>
CloseCall(h) == hs[h].st = "open" /\ hs' = [hs EXCEPT ![h].st = "closing"] /\ UNCHANGED <<log, calls, now>>
CloseRet(h, r) == hs[h].st = "closing" /\ ~hs[h].busy /\ r = "ok" /\ hs' = [hs EXCEPT ![h].st = "closed"] /\ UNCHANGED <<log, calls, now>>
\* closing from within its own callback is refused
SelfClose(h, r) == hs[h].busy /\ r = "EDEADLK" /\ UNCHANGED cvars
Live(h) == hs[h].started /\ hs[h].st # "closed" /\ ~hs[h].busy

(*** Calls: send (with callback), nsend (without), fsend (future), bsend (waits, until dl if not negative), cancel, reply, raw ***)
Call(p, k, h, f, big, dl) ==
  /\ p \notin DOMAIN calls
  /\ calls' = Put(calls, p, [k |-> k, h |-> h, f |-> f, big |-> big, dl |-> dl, st |-> "run", r |-> "ok", from |-> Len(log), at |-> 0, dropped |-> FALSE])
  /\ hs' = IF k = "send" THEN [hs EXCEPT ![h].out = @ \cup {f.id}]
           ELSE IF k = "cancel" THEN [hs EXCEPT ![h].canc = @ \cup {f.rid}] ELSE hs
  /\ UNCHANGED <<log, now>>
Commit(p, f) ==
  LET c == calls[p] IN
  /\ c.st = "run" /\ c.big = 0
  /\ f.k = c.f.k /\ f.rid = c.f.rid /\ f.pay = c.f.pay /\ f.done = c.f.done /\ (c.k # "cancel" => f.id = c.f.id)
  /\ log' = Append(log, f) /\ calls' = [calls EXCEPT ![p].st = "done", ![p].at = Len(log) + 1]
  /\ UNCHANGED <<hs, now>>
Fail(p) == /\ calls[p].st = "run" /\ calls[p].big > 0
           /\ calls' = [calls EXCEPT ![p].st = "done", ![p].r = "LARGE"] /\ UNCHANGED <<log, hs, now>>
\* a cancellation takes effect at its own client at some moment during the call
Drop(p) == /\ calls[p].k = "cancel" /\ ~calls[p].dropped
           /\ calls' = [calls EXCEPT ![p].dropped = TRUE]
           /\ hs' = [hs EXCEPT ![calls[p].h].out = @ \ {calls[p].f.rid}] /\ UNCHANGED <<log, now>>

About(rid, at) == {n \in at + 1..Len(log) : log[n].k \in {"update", "cancel"} /\ log[n].rid = rid}
Return(p, r, id, pay) ==
  LET c == calls[p]
      A == About(c.f.id, c.at)
  IN
  /\ p \in DOMAIN calls /\ c.st = "done"
  /\ IF c.k = "bsend" /\ c.r = "ok"
     THEN \/ r = "ok" /\ (IF A = {} THEN FALSE ELSE LET f == log[Min(A)] IN f.k = "update" /\ f.id = id /\ f.pay = pay)
          \/ r = "CANCELLED" /\ \E n \in About(c.f.id, c.from) : log[n].k = "cancel"   \* perhaps just before the request
          \/ r = "ETIMEDOUT" /\ c.dl >= 0 /\ now >= c.dl
     ELSE r = c.r /\ (c.k = "cancel" => c.dropped)
  /\ calls' = Remove(calls, p) /\ UNCHANGED <<log, hs, now>>

(*** Callbacks ***)
ForServer(h) == {n \in hs[h].pos + 1..Len(log) : log[n].k = "request" \/ (log[n].k = "cancel" /\ hs[h].can)}
ForClient(h) == {n \in hs[h].pos + 1..Len(log) : log[n].k = "update" /\ log[n].rid \in hs[h].out}
Begin(h, n) == hs' = [hs EXCEPT ![h].pos = n, ![h].busy = TRUE, ![h].pend = 0, ![h].out = IF log[n].k = "update" /\ log[n].done THEN @ \ {log[n].rid} ELSE @]
OnRequest(h, id, pay) ==
  /\ Live(h) /\ hs[h].kind = "server" /\ ForServer(h) # {}
  /\ LET n == Min(ForServer(h)) IN log[n].k = "request" /\ log[n].id = id /\ log[n].pay = pay /\ Begin(h, n)
  /\ UNCHANGED <<log, calls, now>>
OnCancel(h, rid) ==
  /\ Live(h) /\ hs[h].kind = "server" /\ ForServer(h) # {}
  /\ LET n == Min(ForServer(h)) IN log[n].k = "cancel" /\ log[n].rid = rid /\ Begin(h, n)
  /\ UNCHANGED <<log, calls, now>>
\* an update already on its way to its callback when the cancellation takes effect
Taken(h) ==
  /\ Live(h) /\ hs[h].kind = "client" /\ hs[h].pend = 0 /\ ForClient(h) # {}
  /\ LET n == Min(ForClient(h)) IN
       /\ \E p \in DOMAIN calls : calls[p].k = "cancel" /\ calls[p].h = h /\ ~calls[p].dropped /\ calls[p].f.rid = log[n].rid
       /\ hs' = [hs EXCEPT ![h].pend = n, ![h].pos = n]
  /\ UNCHANGED <<log, calls, now>>
OnUpdate(h, rid, id, pay, done) ==
  /\ Live(h) /\ hs[h].kind = "client"
  /\ (IF hs[h].pend > 0 THEN TRUE ELSE ForClient(h) # {})
  /\ LET n == IF hs[h].pend > 0 THEN hs[h].pend ELSE Min(ForClient(h)) IN
       log[n].rid = rid /\ log[n].id = id /\ log[n].pay = pay /\ log[n].done = done /\ Begin(h, n)
  /\ UNCHANGED <<log, calls, now>>
CallbackEnd(h) == hs[h].busy /\ hs' = [hs EXCEPT ![h].busy = FALSE] /\ UNCHANGED <<log, calls, now>>

Tick(t) == t > now /\ now' = t /\ UNCHANGED <<log, calls, hs>>

(*** What the user kept ***)
\* a packet handed over is what was sent for as long as it is kept
Kept(id, pay) == (\E n \in 1..Len(log) : log[n].id = id /\ log[n].pay = pay) /\ UNCHANGED cvars
\* a future holds the first reply to its request, unless that was cancelled before
Future(h, rid, ready, id, pay) ==
  LET U == {n \in 1..Len(log) : log[n].k = "update" /\ log[n].rid = rid} IN
  /\ ready => (IF U = {} THEN FALSE ELSE log[Min(U)].id = id /\ log[Min(U)].pay = pay)
  /\ (U # {} /\ rid \notin hs[h].canc /\ hs[h].st = "open") => ready
  /\ UNCHANGED cvars

\* nothing will happen any more: only unanswered blocking calls wait
Quiet ==
  /\ \A p \in DOMAIN calls : calls[p].k = "bsend" /\ calls[p].st = "done" /\ calls[p].r = "ok" /\ calls[p].dl < 0 /\ About(calls[p].f.id, calls[p].at) = {}
  /\ \A h \in DOMAIN hs : /\ hs[h].st \in {"open", "closed"} /\ ~hs[h].busy
                          /\ hs[h].st = "open" => (IF hs[h].kind = "server" THEN ForServer(h) = {} ELSE ForClient(h) = {} /\ hs[h].pend = 0)
  /\ UNCHANGED cvars
=============================================================================
