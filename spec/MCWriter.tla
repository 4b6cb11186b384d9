------------------------------ MODULE MCWriter ------------------------------
(* Two or three callers, three writers: one with a user stage in both phases and standard headers, a wrapper of it that writes
   only into an empty log, and one with a stage under the lock. *)
EXTENDS Writer, TLC

CONSTANTS Procs, Calls

VARIABLES clk, left, rets

vars == <<wvars, clk, left, rets>>

Std(n) == <<[n |-> n, k |-> "mono", ph |-> ""], [n |-> n + 1, k |-> "wid", ph |-> ""],
            [n |-> n + 2, k |-> "wseq", ph |-> ""], [n |-> n + 3, k |-> "tseq", ph |-> ""]>>
User(n, ph) == <<[n |-> n, k |-> "user", ph |-> ph]>>

Init == /\ log = <<>> /\ calls = None /\ lk = 0
        /\ wids = None /\ used = None /\ tries = None /\ lastmono = <<0, 0>>
        /\ wr = (1 :> [own |-> User(1, "b") \o Std(2), from |-> 0])
             @@ (2 :> [own |-> <<[n |-> 6, k |-> "wie", ph |-> ""]>> \o User(7, "l"), from |-> 1])
             @@ (3 :> [own |-> User(8, "l") \o Std(9), from |-> 0])
        /\ clk = 1 /\ left = [p \in Procs |-> Calls] /\ rets = {}

Id(p) == <<p, left[p]>>
Pkt(p, q) == LET c == calls[p] IN
  [id |-> c.id, hs |-> c.hs, pay |-> c.pay, mono |-> <<<<0, clk>>>>, wall |-> <<>>, tseq |-> <<Len(log)>>,
   wid |-> <<(CHOOSE s \in Named(c.ch, "wid") : TRUE)>>, wseq |-> <<q>>]

Next ==
  \/ \E p \in Procs, w \in 1..3, big \in {0, 2} :
       left[p] > 0 /\ p \notin DOMAIN calls /\ Begin(p, w, Id(p), <<>>, <<p>>, big, <<0, clk>>, <<0, 0>>)
       /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED <<clk, rets>>
  \/ \E p \in DOMAIN calls, n \in {1, 7, 8}, ph \in {"u", "l"}, act \in {"pass", "refuse"} :
       Visit(p, n, ph, act, <<>>) /\ UNCHANGED <<clk, left, rets>>
  \/ \E p \in DOMAIN calls, q \in 0..(Calls * Cardinality(Procs)) : calls[p].st = "run" /\ Commit(p, Pkt(p, q)) /\ clk' = clk + 1 /\ UNCHANGED <<left, rets>>
  \/ \E p \in DOMAIN calls : (Decline(p) \/ TooBig(p)) /\ UNCHANGED <<clk, left, rets>>
  \/ \E p \in DOMAIN calls, r \in {"ok", "RANGE", "LARGE"}, b \in BOOLEAN :
       /\ Return(p, r, TRUE, b, <<0, clk>>, <<0, 0>>)
       /\ rets' = rets \cup {[id |-> calls[p].id, r |-> r, b |-> b, wie |-> Wie(calls[p].ch) # {}]} /\ UNCHANGED <<clk, left>>
  \/ \E p \in DOMAIN calls : Die(p) /\ left' = [left EXCEPT ![p] = 0] /\ UNCHANGED <<clk, rets>>

Spec == Init /\ [][Next]_vars

Ids == {log[n].id : n \in 1..Len(log)}
OncePerWrite == Cardinality(Ids) = Len(log)
TransportSeq == \A n \in 1..Len(log) : log[n].tseq = <<n - 1>>
MonoSorted == \A n \in 1..(Len(log) - 1) : Leq(log[n].mono[1], log[n + 1].mono[1])
WriterSeq == \A n, m \in 1..Len(log) : (n # m /\ log[n].wid = log[m].wid) => log[n].wseq # log[m].wseq
Truthful == \A x \in rets : IF x.r = "ok" /\ (x.wie => x.b) THEN x.id \in Ids ELSE x.id \notin Ids
IfEmpty == Cardinality({x \in rets : x.wie /\ x.r = "ok" /\ x.b}) <= 1
=============================================================================
