------------------------------- MODULE MCCfg -------------------------------
(* Cfg checked on its own: a few users with a few documents, one watcher. *)
EXTENDS Cfg, TLC

CONSTANTS Procs, MaxLog, MaxCalls
VARIABLES made, hist     \* calls made so far; per call that took effect: [k, v, at]

O(f) == [t |-> "o", f |-> f]
A(x) == [t |-> "a", v |-> x]
Docs == {O(None), O([a |-> A("1")]), O([a |-> Null]), O([b |-> O([x |-> A("1")])]), O([b |-> O([x |-> Null, y |-> A("2")])]), A("5"), [t |-> "x", v |-> "{"]}

mvars == <<cvars, made, hist>>
MCInit == CfgInit /\ made = 0 /\ hist = <<>>
Vals(p) == IF calls[p].k = "patch" /\ log # <<>> THEN (IF Valid(Cur.v) /\ Valid(calls[p].v) THEN {Merge(Cur.v, calls[p].v)} ELSE {}) ELSE {calls[p].v}
Effect(p) == hist' = Append(hist, [k |-> calls[p].k, v |-> calls[p].v])
MCNext ==
  \/ \E p \in Procs, k \in {"write", "wie", "patch", "read", "bread"}, v \in Docs :
       /\ made < MaxCalls /\ Len(log) < MaxLog
       /\ (k \in {"read", "bread"} => v = Null \/ v = O(None))
       /\ Call(p, k, ToString(made), v, 0, 0) /\ made' = made + 1 /\ UNCHANGED hist
  \/ \E p \in DOMAIN calls : \E v \in Vals(p) : Commit(p, [id |-> calls[p].id, v |-> v]) /\ Effect(p) /\ UNCHANGED made
  \/ \E p \in DOMAIN calls : (Decline(p) \/ Refuse(p) \/ Read(p)) /\ UNCHANGED <<made, hist>>
  \/ \E p \in DOMAIN calls : LET c == calls[p] IN
        /\ c.st = "done" /\ Return(p, c.r, c.at > 0, IF c.at > 0 THEN log[c.at].id ELSE "", IF c.at > 0 THEN log[c.at].v ELSE Null)
        /\ UNCHANGED <<made, hist>>
  \/ \E p \in DOMAIN calls : Die(p) /\ UNCHANGED <<made, hist>>
  \/ UNCHANGED <<made, hist>> /\ (IF 1 \in DOMAIN wt THEN
          \/ \E n \in 1..Len(log) : Told(1, log[n].id, log[n].v)
          \/ ToldEnd(1) \/ CloseCall(1) \/ CloseRet(1, "ok")
        ELSE Open(1))
MCSpec == MCInit /\ [][MCNext]_mvars

\* the current value is what the calls that took effect make of nothing, one after the other
RECURSIVE Fold(_, _)
Fold(n, acc) == IF n > Len(hist) THEN acc ELSE Fold(n + 1, IF hist[n].k = "patch" /\ n > 1 THEN Merge(acc, hist[n].v) ELSE hist[n].v)
NothingLost == Len(hist) = Len(log) /\ (log # <<>> => Cur.v = Fold(1, Null))
OnlyFirstIfEmpty == \A n \in 1..Len(hist) : hist[n].k = "wie" => n = 1
\* merging is idempotent, and null removes
MergeLaws == \A a \in Docs, b \in Docs : Valid(a) /\ Valid(b) =>
  LET m == Merge(a, b) IN Merge(m, b) = m /\ (b.t = "o" => m.t = "o" /\ \A k \in DOMAIN b.f : b.f[k].t = "n" => k \notin DOMAIN m.f)
InvWatch == \A h \in DOMAIN wt : wt[h].seen <= Len(log) /\ (wt[h].seen > 0 => wt[h].seen >= wt[h].least)
WatchForward == [][\A h \in DOMAIN wt : wt'[h].seen >= wt[h].seen]_mvars
ASSUME MergeLaws
=============================================================================
