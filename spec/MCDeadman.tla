------------------------------ MODULE MCDeadman ------------------------------
EXTENDS Deadman, TLC
CONSTANTS MaxOps, MaxDeaths, Ops
VARIABLES ops, deaths
vars == <<dvars, ops, deaths>>
Hmap == <<1, 2, 1>>

Init == DInit /\ ops = [p \in Procs |-> 0] /\ deaths = 0

Tokens == {v \in {tok[x] : x \in 1..Len(tok)} : v /= -1} \cup {99}

Ret(p) == /\ Return(p)
          /\ IF st[p].r[1] \in {"owned", "ok"} /\ Len(st[p].r) > 1
             THEN \E v \in 1..3 : Token(st[p].r[2], v)
             ELSE UNCHANGED tok

Next ==
  \/ \E p \in Procs, k \in Ops, v \in Tokens :
        /\ ops[p] < MaxOps /\ (k \notin {"waitun", "twaitun"} => v = 99)
        /\ Call(p, Hmap[p], k, v, 0, {}) /\ ops' = [ops EXCEPT ![p] = @ + 1] /\ UNCHANGED deaths
  \/ \E p \in Procs : Effect(p) /\ UNCHANGED <<ops, deaths>>
  \/ \E p \in Procs : Ret(p) /\ UNCHANGED <<ops, deaths>>
  \/ \E p \in Procs : deaths < MaxDeaths /\ Die(p) /\ deaths' = deaths + 1 /\ UNCHANGED ops

Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Effect(p) /\ UNCHANGED <<ops, deaths>>)

\* A success of taking comes with the ownership.
Truthful == \A p \in Procs : (st[p].ph = "done" /\ st[p].k \in Takers /\ st[p].r[1] \in {"ok", "EOWNERDEAD"}) => (owner = st[p].h \/ \E q \in Procs \ {p} : Hmap[q] = Hmap[p])
\* An ownership ends only by its owner's release or death.
EndsRightly == [][(owner /= 0 /\ owner' /= owner) => (owner' = 0 /\ ((\E p \in Procs : st[p].h = owner /\ st[p].k = "unlock" /\ st'[p].ph = "done") \/ st'[othr].ph = "dead"))]_vars
\* Wherever everybody is stuck, everybody may be.
Stuck == (\A p \in Procs : ~ENABLED Effect(p) /\ st[p].ph \in {"called", "dead"})
           => \A p \in Procs : st[p].ph = "called" => MayBlock(p)
\* A blocked taker is served once the deadman stays free; an observer sees an end.
Served == \A p \in Procs : (st[p].k = "lock" /\ st[p].ph = "called") ~> (owner /= 0 \/ st[p].ph /= "called")
Seen == \A p \in Procs : (st[p].k = "waitun" /\ st[p].ph = "called" /\ owner = 0) ~> (owner /= 0 \/ st[p].ph /= "called")
=============================================================================
