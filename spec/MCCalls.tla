------------------------------ MODULE MCCalls ------------------------------
(* Calls checked on its own: two clients, one or two servers, callers sending, replying and cancelling at any time. *)
EXTENDS Calls, TLC

CONSTANTS Servers, Clients, Callers, MaxReq, MaxUpd, MaxCancel, Progress, Blocking
VARIABLES n,       \* numbers used: [req, upd, can]
          got,     \* per request: the updates its callback was given, in order
          served   \* per server: requests seen
mvars == <<cvars, n, got, served>>

Fr(id, k, rid, done) == [id |-> id, k |-> k, rid |-> rid, pay |-> id, done |-> done]
Q(i) == "q" \o ToString(i)

MCInit == CallsInit /\ n = [req |-> 0, upd |-> 0, can |-> 0] /\ got = None /\ served = None
Same == UNCHANGED <<n, got, served>>
MCNext ==
  \/ \E h \in Servers \cup Clients :
       IF h \in DOMAIN hs
       THEN \/ (Start(h) \/ OpenRet(h) \/ CallbackEnd(h) \/ Taken(h)) /\ Same
            \/ (CloseCall(h) \/ CloseRet(h, "ok")) /\ h \in Servers /\ Same
            \/ hs[h].kind = "server" /\ \E m \in 1..Len(log) :
                 \/ OnRequest(h, log[m].id, log[m].pay) /\ served' = Put(served, h, IF h \in DOMAIN served THEN Append(served[h], log[m].id) ELSE <<log[m].id>>) /\ UNCHANGED <<n, got>>
                 \/ OnCancel(h, log[m].rid) /\ Same
            \/ hs[h].kind = "client" /\ \E m \in 1..Len(log) :
                 /\ OnUpdate(h, log[m].rid, log[m].id, log[m].pay, log[m].done)
                 /\ got' = Put(got, log[m].rid, (IF log[m].rid \in DOMAIN got THEN got[log[m].rid] ELSE <<>>) \o <<[h |-> h, m |-> m]>>)
                 /\ UNCHANGED <<n, served>>
       ELSE OpenCall(h, IF h \in Servers THEN "server" ELSE "client", TRUE) /\ Same
  \/ \E p \in Callers, h \in Clients \cap DOMAIN hs : hs[h].st = "open" /\ UNCHANGED <<got, served>> /\
       \/ n.req < MaxReq /\ n' = [n EXCEPT !.req = @ + 1] /\ \E k \in IF Blocking THEN {"send", "bsend"} ELSE {"send"} : Call(p, k, h, Fr(Q(n.req + 1), "request", "", FALSE), 0, -1)
       \/ n.can < MaxCancel /\ n' = [n EXCEPT !.can = @ + 1] /\ \E i \in 1..n.req :
            (\A q \in DOMAIN calls : calls[q].k = "send" => calls[q].f.id # Q(i)) /\ Call(p, "cancel", h, [id |-> "", k |-> "cancel", rid |-> Q(i), pay |-> Q(i), done |-> FALSE], 0, -1)
  \/ \E p \in Callers, h \in DOMAIN served : hs[h].st = "open" /\ n.upd < MaxUpd /\ n' = [n EXCEPT !.upd = @ + 1] /\ UNCHANGED <<got, served>> /\
       \E j \in 1..Len(served[h]), d \in IF Progress THEN BOOLEAN ELSE {TRUE} : Call(p, "reply", h, Fr("u" \o ToString(n.upd), "update", served[h][j], d), 0, -1)
  \/ \E p \in DOMAIN calls : Same /\
       \/ calls[p].k # "cancel" /\ Commit(p, calls[p].f)
       \/ calls[p].k = "cancel" /\ Commit(p, [calls[p].f EXCEPT !.id = "c" \o ToString(Len(log))])
       \/ Drop(p)
       \/ \E r \in {"ok", "CANCELLED"}, m \in 0..Len(log) : Return(p, r, IF m = 0 THEN "" ELSE log[m].id, IF m = 0 THEN "" ELSE log[m].pay)
MCSpec == MCInit /\ [][MCNext]_mvars

\* every callback belongs to the client that sent the request; nothing after the last update; in the order sent, each at most once
Mine == \A r \in DOMAIN got : \A a \in 1..Len(got[r]) :
          /\ log[got[r][a].m].rid = r
          /\ a > 1 => got[r][a].m > got[r][a - 1].m /\ got[r][a].h = got[r][a - 1].h /\ ~log[got[r][a - 1].m].done
\* a server sees every request once, in order
Once == \A h \in DOMAIN served : \A a, b \in 1..Len(served[h]) : a # b => served[h][a] # served[h][b]
\* no update of its own connection is passed over before the last, unless cancelled
NoGap == \A r \in DOMAIN got : \A h \in DOMAIN hs :
           (\E a \in 1..Len(got[r]) : got[r][a].h = h) /\ r \notin hs[h].canc =>
              LET last == got[r][Len(got[r])].m IN
              \A m \in 1..last : (log[m].k = "update" /\ log[m].rid = r) => \E a \in 1..Len(got[r]) : got[r][a].m = m
=============================================================================
