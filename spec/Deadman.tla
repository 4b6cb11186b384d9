------------------------------- MODULE Deadman -------------------------------
(* The deadman as its users see it: one owner at a time, generations of      *)
(* ownership named by tokens, observers of taking and releasing, deaths, and *)
(* handles that can be interrupted. A call takes effect in one step between  *)
(* its start and its return. Processes are threads; HandleOf(p) is the       *)
(* handle a call is made through (several threads may share one).            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Procs, Handles
VARIABLES owner,   \* the owning handle, 0 if none
          othr,    \* the owning thread
          vis,     \* the ownership is complete: observers see it
          died,    \* the last owner died holding it, and nobody was told yet
          gen,     \* number of ownerships so far
          tok,     \* the token reported for each ownership, -1 while never reported
          sd,      \* handles that are interrupted
          st
dvars == <<owner, othr, vis, died, gen, tok, sd, st>>

Idle == [k |-> "idle", h |-> 0, v |-> 0, dl |-> -1, ph |-> "idle", r |-> <<>>, blk |-> {}]

DInit == /\ owner = 0 /\ othr = 0 /\ vis = FALSE /\ died = FALSE /\ gen = 0 /\ tok = <<>>
         /\ sd = [h \in Handles |-> FALSE]
         /\ st = [p \in Procs |-> Idle]

\* blk: threads known to be asleep in the handle that is being interrupted
Call(p, h, k, v, dl, blk) ==
  /\ st[p].ph = "idle"
  /\ st' = [st EXCEPT ![p] = [k |-> k, h |-> h, v |-> v, dl |-> dl, ph |-> "called", r |-> <<>>, blk |-> blk]]
  /\ UNCHANGED <<owner, othr, vis, died, gen, tok, sd>>

Done(p, r) == [st EXCEPT ![p].ph = "done", ![p].r = r]
Is(p, ks) == st[p].ph = "called" /\ st[p].k \in ks
H(p) == st[p].h
Untouched == UNCHANGED <<owner, othr, vis, died, gen, tok, sd>>

Takers == {"try", "lock", "tlock"}
Waiters == {"lock", "tlock", "waitlk", "twaitlk", "waitun", "twaitun"}
Timed == {"tlock", "twaitlk", "twaitun"}

\* Taking excludes other takers first and is seen by observers no later than its return.
Take(p) ==
  /\ Is(p, Takers) /\ owner = 0
  /\ owner' = H(p) /\ othr' = p /\ vis' = FALSE /\ died' = FALSE /\ gen' = gen + 1 /\ tok' = Append(tok, -1)
  /\ st' = [st EXCEPT ![p].ph = "taking", ![p].r = <<IF died THEN "EOWNERDEAD" ELSE "ok">>]
  /\ UNCHANGED sd
Appear(p) == st[p].ph = "taking" /\ vis' = TRUE /\ st' = [st EXCEPT ![p].ph = "done"]
             /\ UNCHANGED <<owner, othr, died, gen, tok, sd>>
Owned == owner /= 0 /\ vis
TakeAgain(p) == Is(p, Takers) /\ owner = H(p) /\ st' = Done(p, <<"ok">>) /\ Untouched
TakeOwn(p)  == Is(p, Takers) /\ owner /= 0 /\ owner /= H(p) /\ othr = p /\ st' = Done(p, <<"EDEADLK">>) /\ Untouched
TakeBusy(p) == Is(p, {"try"}) /\ owner /= 0 /\ owner /= H(p) /\ othr /= p /\ st' = Done(p, <<"EBUSY">>) /\ Untouched

\* Releasing
Release(p) ==
  /\ Is(p, {"unlock"})
  /\ IF owner = H(p) THEN owner' = 0 /\ othr' = 0 /\ vis' = FALSE /\ st' = Done(p, <<"ok">>) /\ UNCHANGED <<died, gen, tok, sd>>
     ELSE st' = Done(p, <<"EPERM">>) /\ Untouched

\* Observing. An ownership has one token, and no other ownership has it.
Named(g, v) == IF tok[g] /= -1 THEN v = tok[g] ELSE \A x \in 1..Len(tok) : tok[x] /= v
SeeTaken(p) == Is(p, {"waitlk", "twaitlk"}) /\ Owned /\ st' = Done(p, <<"ok", gen>>) /\ Untouched
Current(v) == Owned /\ tok[gen] = v
SeeReleased(p) == Is(p, {"waitun", "twaitun"}) /\ ~Current(st[p].v) /\ st' = Done(p, <<"ok">>) /\ Untouched
State(p) == /\ Is(p, {"state"})
            /\ st' = Done(p, IF ~Owned THEN <<"free">> ELSE <<"owned", gen, othr, owner = H(p)>>)
            /\ Untouched

\* Giving up. Time is judged when the call returns.
Expire(p) == /\ Is(p, Timed)
             /\ CASE st[p].k = "tlock" -> owner \notin {0, H(p)}
                  [] st[p].k = "twaitlk" -> ~Owned
                  [] st[p].k = "twaitun" -> Current(st[p].v)
             /\ st' = Done(p, <<"ETIMEDOUT">>) /\ Untouched
Interrupt(p) == Is(p, {"shutdown"}) /\ sd' = [sd EXCEPT ![H(p)] = TRUE] /\ st' = Done(p, <<"ok">>)
                /\ UNCHANGED <<owner, othr, vis, died, gen, tok>>
Interrupted(p) == Is(p, Waiters \cup Takers) /\ sd[H(p)] /\ st' = Done(p, <<"ESHUTDOWN">>) /\ Untouched

Effect(p) == \/ Take(p) \/ Appear(p) \/ TakeAgain(p) \/ TakeOwn(p) \/ TakeBusy(p) \/ Release(p) \/ SeeTaken(p) \/ SeeReleased(p)
             \/ State(p) \/ Expire(p) \/ Interrupt(p) \/ Interrupted(p)

Return(p) == /\ st[p].ph = "done"
             /\ st' = [st EXCEPT ![p] = Idle]
             /\ UNCHANGED <<owner, othr, vis, died, gen, sd>>
Token(g, v) == Named(g, v) /\ tok' = [tok EXCEPT ![g] = v]

\* Handles on a file (participant p has handle p): closing one gives up what it owns.
Open(p) == /\ st[p].ph = "idle" /\ sd' = [sd EXCEPT ![p] = FALSE] /\ UNCHANGED <<owner, othr, vis, died, gen, tok, st>>
Close(p) == /\ st[p].ph = "idle"
            /\ IF owner = p THEN owner' = 0 /\ othr' = 0 /\ vis' = FALSE /\ UNCHANGED died ELSE UNCHANGED <<owner, othr, vis, died>>
            /\ UNCHANGED <<gen, tok, sd, st>>

\* A thread dies; what it owned is lost.
Die(p) == /\ st[p].ph /= "dead"
          /\ st' = [st EXCEPT ![p] = [Idle EXCEPT !.ph = "dead"]]
          /\ IF othr = p /\ owner /= 0 THEN owner' = 0 /\ othr' = 0 /\ vis' = FALSE /\ died' = TRUE ELSE UNCHANGED <<owner, othr, vis, died>>
          /\ UNCHANGED <<gen, tok, sd>>

\* Who may be asleep for ever when nothing else can happen.
MayBlock(p) == /\ st[p].ph = "called"
               /\ ~sd[H(p)]
               /\ CASE st[p].k = "lock"   -> owner \notin {0, H(p)} /\ othr /= p
                    [] st[p].k = "waitlk" -> ~Owned
                    [] st[p].k = "waitun" -> Current(st[p].v)
                    [] OTHER -> FALSE
MaySleepTo(p, t) == /\ st[p].ph = "called"
                    /\ ~sd[H(p)]
                    /\ CASE st[p].k \in {"lock", "tlock"}     -> owner \notin {0, H(p)}
                         [] st[p].k \in {"waitlk", "twaitlk"} -> ~Owned
                         [] st[p].k \in {"waitun", "twaitun"} -> Current(st[p].v)
                         [] OTHER -> FALSE
                    /\ st[p].k \in Timed => st[p].dl >= t

\* What the model must satisfy
OneOwner == (owner = 0) <=> (othr = 0)
OwnerAlive == owner /= 0 => st[othr].ph /= "dead"
DiedOnlyFree == died => owner = 0
TokensDistinct == \A a, b \in 1..Len(tok) : a /= b /\ tok[a] /= -1 => tok[a] /= tok[b]
=============================================================================
