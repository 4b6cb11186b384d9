-------------------------------- MODULE Cfg --------------------------------
(* A configuration topic: a log of values of which the last is current, written, written if empty, patched, read and watched by
   any number of users.  Documents are [t |-> "o", f |-> members], [t |-> "a", v |-> text] (anything else that is valid),
   [t |-> "n"] (null) or [t |-> "x", v |-> text] (not a document). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES log,    \* committed: records [id, v]
          calls,  \* running calls by caller
          wt,     \* watchers: [st, least, seen, busy]
          now

cvars == <<log, calls, wt, now>>

None == [x \in {} |-> x]
CfgInit == log = <<>> /\ calls = None /\ wt = None /\ now = 0

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Remove(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Null == [t |-> "n"]
\* RFC 7396
RECURSIVE Merge(_, _)
Merge(o, p) ==
  IF p.t # "o" THEN p
  ELSE LET b == IF o.t = "o" THEN o.f ELSE None
           gone == {k \in DOMAIN p.f : p.f[k].t = "n"}
       IN [t |-> "o", f |-> [k \in (DOMAIN b \cup DOMAIN p.f) \ gone |->
             IF k \in DOMAIN p.f THEN Merge(IF k \in DOMAIN b THEN b[k] ELSE Null, p.f[k]) ELSE b[k]]]

Valid(v) == v.t # "x"
Cur == log[Len(log)]

\* kind: write, wie, patch, read, bread (waits), tread (waits until dl); big: 0 fits, 2 does not
Call(p, k, id, v, big, dl) ==
  /\ p \notin DOMAIN calls
  /\ calls' = Put(calls, p, [k |-> k, id |-> id, v |-> v, big |-> big, dl |-> dl, st |-> "run", r |-> "ok", at |-> 0])
  /\ UNCHANGED <<log, wt, now>>

Done(p, r, at) == calls' = [calls EXCEPT ![p].st = "done", ![p].r = r, ![p].at = at]

\* the value a write, a write-if-empty or a patch makes current
Result(p, v) ==
  LET c == calls[p] IN
  CASE c.k = "write" -> v = c.v
    [] c.k = "wie"   -> log = <<>> /\ v = c.v
    [] c.k = "patch" -> IF log = <<>> THEN v = c.v \/ (Valid(c.v) /\ v = Merge(Null, c.v))
                        ELSE Valid(Cur.v) /\ Valid(c.v) /\ v = Merge(Cur.v, c.v)
    [] OTHER -> FALSE
Commit(p, rec) ==
  /\ p \in DOMAIN calls /\ calls[p].st = "run" /\ calls[p].big < 2 /\ rec.id = calls[p].id
  /\ Result(p, rec.v)
  /\ log' = Append(log, rec) /\ Done(p, "ok", Len(log) + 1)
  /\ UNCHANGED <<wt, now>>
Decline(p) ==
  /\ p \in DOMAIN calls /\ calls[p].st = "run" /\ calls[p].k = "wie" /\ log # <<>>
  /\ Done(p, "ok", 0) /\ UNCHANGED <<log, wt, now>>
\* a patch that is not a document, or a current value that is none
Refuse(p) ==
  /\ p \in DOMAIN calls /\ calls[p].st = "run" /\ calls[p].k = "patch"
  /\ ~Valid(calls[p].v) \/ (IF log = <<>> THEN FALSE ELSE ~Valid(Cur.v))
  /\ Done(p, "MSG", 0) /\ UNCHANGED <<log, wt, now>>
TooBig(p) ==
  /\ p \in DOMAIN calls /\ calls[p].st = "run" /\ calls[p].big > 0 /\ (calls[p].k = "wie" => log = <<>>)
  /\ Done(p, "LARGE", 0) /\ UNCHANGED <<log, wt, now>>
Read(p) ==
  /\ p \in DOMAIN calls /\ calls[p].st = "run" /\ calls[p].k \in {"read", "bread", "tread"}
  /\ \/ log # <<>> /\ Done(p, "ok", Len(log))
     \/ log = <<>> /\ calls[p].k = "read" /\ Done(p, "AGAIN", 0)
     \/ calls[p].k = "tread" /\ now >= calls[p].dl /\ Done(p, "ETIMEDOUT", 0)
  /\ UNCHANGED <<log, wt, now>>

\* written: what write-if-empty says; id and v: what a read returned
Return(p, r, written, id, v) ==
  LET c == calls[p] IN
  /\ p \in DOMAIN calls /\ c.st = "done" /\ r = c.r
  /\ (c.k = "wie" /\ r = "ok") => written = (c.at > 0)
  /\ (c.k \in {"read", "bread", "tread"} /\ r = "ok") => id = log[c.at].id /\ v = log[c.at].v
  /\ calls' = Remove(calls, p) /\ UNCHANGED <<log, wt, now>>

Tick(t) == t > now /\ now' = t /\ UNCHANGED <<log, calls, wt>>
Die(p) == calls' = Remove(calls, p) /\ UNCHANGED <<log, wt, now>>

\* watchers (id is empty where the watcher is told only the value): each is told values in order, none twice, starting with the one current when it was opened or a later one
Open(h) == wt' = Put(wt, h, [st |-> "open", least |-> Len(log), seen |-> 0, busy |-> FALSE]) /\ UNCHANGED <<log, calls, now>>
Told(h, id, v) ==
  /\ wt[h].st \in {"open", "closing"} /\ ~wt[h].busy
  /\ \E n \in 1..Len(log) : /\ n > wt[h].seen /\ n >= wt[h].least /\ (id = "" \/ log[n].id = id) /\ log[n].v = v
                            /\ wt' = [wt EXCEPT ![h].seen = n, ![h].busy = TRUE]
  /\ UNCHANGED <<log, calls, now>>
ToldEnd(h) == wt[h].busy /\ wt' = [wt EXCEPT ![h].busy = FALSE] /\ UNCHANGED <<log, calls, now>>
\* closing from within its own callback is refused
SelfClose(h, r) == wt[h].busy /\ r = "EDEADLK" /\ UNCHANGED cvars
CloseCall(h) == wt[h].st = "open" /\ wt' = [wt EXCEPT ![h].st = "closing"] /\ UNCHANGED <<log, calls, now>>
CloseRet(h, r) == wt[h].st = "closing" /\ ~wt[h].busy /\ r = "ok" /\ wt' = [wt EXCEPT ![h].st = "closed"] /\ UNCHANGED <<log, calls, now>>

\* nothing will happen any more: only readers of an empty topic wait, and every watcher has seen the latest value
Quiet == /\ \A p \in DOMAIN calls : calls[p].st = "run" /\ calls[p].k = "bread" /\ log = <<>>
         /\ \A h \in DOMAIN wt : wt[h].st = "open" => ~wt[h].busy /\ wt[h].seen = Len(log)
         /\ \A h \in DOMAIN wt : wt[h].st # "closing"
         /\ UNCHANGED cvars
=============================================================================
