------------------------------- MODULE Writer -------------------------------
(* Writers over one topic: chains of middleware around one log.

   A writer is a chain of stages, outermost first, ending in the topic.  Pushing puts stages in front of a writer's own ones,
   composing joins chains, wrapping makes a writer whose chain continues with that of another.  A write visits every stage that
   acts before the lock, in order, then takes the lock and visits every stage that acts under the lock, in order, and then
   appends one packet.  A stage may refuse the write (an error) or drop it (no error); then nothing is appended.

   Stages: mono, wall, wid, wseq, tseq add the standard headers, wie drops the write if the log is not empty, and user stages
   are visited before the lock (ph = "u"), under it ("l") or both ("b"). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES wr, log, calls, lk, wids, used, tries, lastmono

wvars == <<wr, log, calls, lk, wids, used, tries, lastmono>>

None == [x \in {} |-> x]
WriterInit == /\ wr = None /\ log = <<>> /\ calls = None /\ lk = 0
              /\ wids = None /\ used = None /\ tries = None /\ lastmono = <<0, 0>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Remove(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A n \in 1..Len(s) : Count(s, s[n]) = Count(t, s[n])
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Chain(_)
Chain(w) == wr[w].own \o (IF wr[w].from = 0 THEN <<>> ELSE Chain(wr[w].from))

NewWriter(w, stages) == wr' = Put(wr, w, [own |-> stages, from |-> 0]) /\ UNCHANGED <<log, calls, lk, wids, used, tries, lastmono>>
Push(w, stages) == wr' = [wr EXCEPT ![w].own = stages \o @] /\ UNCHANGED <<log, calls, lk, wids, used, tries, lastmono>>
Wrap(w, from, stages) == wr' = Put(wr, w, [own |-> stages, from |-> from]) /\ UNCHANGED <<log, calls, lk, wids, used, tries, lastmono>>
\* closing a writer closes its own stages, each once
Close(w, closed) == /\ SameBag(closed, [n \in 1..Len(SelectSeq(wr[w].own, LAMBDA s : s.k = "user")) |->
                                          SelectSeq(wr[w].own, LAMBDA s : s.k = "user")[n].n])
                    /\ wr' = Remove(wr, w) /\ UNCHANGED <<log, calls, lk, wids, used, tries, lastmono>>

Named(ch, k) == {ch[n].n : n \in {m \in 1..Len(ch) : ch[m].k = k}}
Many(ch, k) == Cardinality({m \in 1..Len(ch) : ch[m].k = k})
\* the visits a write makes to user stages, in order; pos is the place in the chain
RECURSIVE Visits(_, _, _)
Visits(ch, ph, n) == IF n > Len(ch) THEN <<>>
                     ELSE (IF ch[n].k = "user" /\ ch[n].ph \in {ph, "b"} THEN <<[n |-> ch[n].n, ph |-> ph, pos |-> n]>> ELSE <<>>)
                          \o Visits(ch, ph, n + 1)
Wie(ch) == {m \in 1..Len(ch) : ch[m].k = "wie"}
FirstWie(ch) == IF Wie(ch) = {} THEN Len(ch) + 1 ELSE CHOOSE m \in Wie(ch) : \A x \in Wie(ch) : m <= x

\* size: 0 certainly fits, 2 certainly does not
Begin(p, w, id, hs, pay, big, t, tw) ==
  LET ch == Chain(w) IN
  /\ p \notin DOMAIN calls
  /\ calls' = Put(calls, p, [w |-> w, ch |-> ch, id |-> id, hs |-> hs, pay |-> pay, big |-> big, t |-> t, tw |-> tw,
                             todo |-> Visits(ch, "u", 1) \o Visits(ch, "l", 1), st |-> "run", err |-> "ok",
                             mono |-> t, wall |-> tw,
                             floor |-> [s \in Named(ch, "wseq") |-> IF Get(used, s, {}) = {} THEN 0 ELSE Max(used[s]) + 1]])
  /\ tries' = [s \in DOMAIN tries \cup Named(ch, "wseq") |-> Get(tries, s, 0) + (IF s \in Named(ch, "wseq") THEN 1 ELSE 0)]
  /\ UNCHANGED <<wr, log, lk, wids, used, lastmono>>

\* a user stage is entered; act is what it is going to do
Visit(p, n, ph, act, arg) ==
  LET c == calls[p] IN
  /\ p \in DOMAIN calls /\ c.st = "run" /\ c.todo # <<>>
  /\ Head(c.todo).n = n /\ Head(c.todo).ph = ph
  /\ ph = "u" => lk # p
  /\ ph = "l" => lk \in {0, p} /\ (Head(c.todo).pos > FirstWie(c.ch) => log = <<>>)
  /\ lk' = IF ph = "u" THEN lk ELSE IF act \in {"refuse", "drop"} THEN 0 ELSE p
  /\ calls' = [calls EXCEPT ![p] = [c EXCEPT
        !.todo = Tail(@),
        !.hs = IF act = "hdr" THEN Append(@, arg) ELSE @,
        !.pay = IF act = "pay" THEN arg ELSE @,
        !.st = IF act \in {"refuse", "drop"} THEN "gone" ELSE @,
        !.err = IF act = "refuse" THEN "RANGE" ELSE @]]
  /\ UNCHANGED <<wr, log, wids, used, tries, lastmono>>

\* the packet as it is found in the log: the user's and user stages' headers in hs, the standard ones apart
Carries(p, k) ==
  LET c == calls[p] IN
  /\ k.id = c.id /\ k.pay = c.pay /\ SameBag(k.hs, c.hs)
  /\ Len(k.mono) = Many(c.ch, "mono") /\ \A n \in 1..Len(k.mono) : Leq(c.t, k.mono[n]) /\ Leq(lastmono, k.mono[n])
  /\ Len(k.wall) = Many(c.ch, "wall") /\ \A n \in 1..Len(k.wall) : Leq(c.tw, k.wall[n])
  /\ Len(k.tseq) = Many(c.ch, "tseq") /\ \A n \in 1..Len(k.tseq) : k.tseq[n] = Len(log)
  /\ Len(k.wid) = Cardinality(Named(c.ch, "wid"))
  /\ \A s \in Named(c.ch, "wid") : IF s \in DOMAIN wids THEN k.wid[1] = wids[s] ELSE k.wid[1] \notin {wids[x] : x \in DOMAIN wids}
  /\ Len(k.wseq) = Cardinality(Named(c.ch, "wseq"))
  /\ \A s \in Named(c.ch, "wseq") : /\ k.wseq[1] \notin Get(used, s, {})
                                    /\ k.wseq[1] >= c.floor[s] /\ k.wseq[1] < tries[s]

RECURSIVE Latest(_, _)
Latest(s, d) == IF s = <<>> THEN d ELSE Latest(Tail(s), IF Leq(d, Head(s)) THEN Head(s) ELSE d)
Commit(p, k) ==
  LET c == calls[p] IN
  /\ p \in DOMAIN calls /\ c.st = "run" /\ c.todo = <<>> /\ c.big < 2
  /\ Wie(c.ch) # {} => log = <<>>
  /\ lk \in {0, p} /\ Carries(p, k)
  /\ log' = Append(log, k) /\ lk' = 0
  /\ lastmono' = Latest(k.mono, lastmono)
  /\ wids' = [s \in DOMAIN wids \cup Named(c.ch, "wid") |-> IF s \in Named(c.ch, "wid") THEN k.wid[1] ELSE wids[s]]
  /\ used' = [s \in DOMAIN used \cup Named(c.ch, "wseq") |-> Get(used, s, {}) \cup (IF s \in Named(c.ch, "wseq") THEN {k.wseq[1]} ELSE {})]
  /\ calls' = [calls EXCEPT ![p].st = "done", ![p].mono = Latest(k.mono, c.t), ![p].wall = Latest(k.wall, c.tw)]
  /\ UNCHANGED <<wr, tries>>

\* only when the log is not empty does write-if-empty let go of the write
Decline(p) ==
  LET c == calls[p] IN
  /\ p \in DOMAIN calls /\ c.st = "run" /\ Wie(c.ch) # {} /\ log # <<>>
  /\ IF c.todo = <<>> THEN TRUE ELSE Head(c.todo).ph = "l" /\ Head(c.todo).pos > FirstWie(c.ch)
  /\ lk \in {0, p} /\ lk' = 0
  /\ calls' = [calls EXCEPT ![p].st = "declined"]
  /\ UNCHANGED <<wr, log, wids, used, tries, lastmono>>

TooBig(p) ==
  LET c == calls[p] IN
  /\ p \in DOMAIN calls /\ c.st = "run" /\ c.todo = <<>> /\ c.big > 0 /\ lk \in {0, p} /\ lk' = 0
  /\ Wie(c.ch) # {} => log = <<>>
  /\ calls' = [calls EXCEPT ![p].st = "gone", ![p].err = "LARGE"]
  /\ UNCHANGED <<wr, log, wids, used, tries, lastmono>>

\* written: what write-if-empty says; meaningful if nothing else interfered
Return(p, r, known, written, t, tw) ==
  LET c == calls[p] IN
  /\ p \in DOMAIN calls /\ c.st # "run"
  /\ r = c.err
  /\ (known /\ Wie(c.ch) # {} /\ c.st \in {"done", "declined"}) => written = (c.st = "done")
  /\ Leq(c.mono, t) /\ Leq(c.wall, tw)
  /\ calls' = Remove(calls, p)
  /\ UNCHANGED <<wr, log, lk, wids, used, tries, lastmono>>

\* the process dies in the middle of the write, which may have taken effect
Die(p) == /\ calls' = Remove(calls, p) /\ lk' = IF lk = p THEN 0 ELSE lk
          /\ UNCHANGED <<wr, log, wids, used, tries, lastmono>>
=============================================================================
