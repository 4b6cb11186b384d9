------------------------------- MODULE MCLog -------------------------------
(* Log checked on its own: publishers at several levels, listeners of every kind coming and going. *)
EXTENDS Log, TLC

CONSTANTS Listeners, Callers, Levels, MaxMsg
VARIABLES n, seen
mvars == <<lvars, n, seen>>

MCInit == LogInit /\ n = 0 /\ seen = [h \in Listeners |-> <<>>]
Same == UNCHANGED <<n, seen>>
MCNext ==
  \/ \E p \in Callers : p \notin DOMAIN calls /\ n < MaxMsg /\ n' = n + 1 /\ UNCHANGED seen /\ \E l \in Levels \cup {NoLevel} : Call(p, n + 1, l, n + 1, FALSE)
  \/ \E p \in DOMAIN calls : (Commit(p, [id |-> calls[p].id, pay |-> calls[p].pay]) \/ Return(p, "ok")) /\ Same
  \/ \E h \in Listeners :
       IF h \notin DOMAIN ls
       THEN \E l \in Levels, a \in {"oldest", "recent", "new"}, b \in {"next", "newest"} : Open(h, l, a, b) /\ Same
       ELSE \/ (Start(h) \/ Opened(h) \/ CallbackEnd(h) \/ Close(h) \/ Closed(h, "ok")) /\ Same
            \/ \E m \in 1..Len(log) : Callback(h, log[m].id, log[m].pay, log[m].lvl) /\ seen' = [seen EXCEPT ![h] = Append(@, m)] /\ UNCHANGED n
MCSpec == MCInit /\ [][MCNext]_mvars

InOrder == \A h \in Listeners : \A a \in 1..Len(seen[h]) : a > 1 => seen[h][a] > seen[h][a - 1]
Severe == \A h \in Listeners : \A a \in 1..Len(seen[h]) : log[seen[h][a]].lvl <= ls[h].lvl /\ log[seen[h][a]].lvl # NoLevel /\ seen[h][a] >= ls[h].s
\* a listener reading one after the other has seen all it should up to where it is
All == \A h \in DOMAIN ls : ls[h].iter = "next" =>
         \A m \in 1..Len(log) : (m >= ls[h].s /\ m <= ls[h].pos /\ log[m].lvl <= ls[h].lvl) => \E a \in 1..Len(seen[h]) : seen[h][a] = m
=============================================================================
