------------------------------ MODULE MCReader ------------------------------
(* All interleavings of a log with readers of every mode.                    *)
EXTENDS Reader, TLC
CONSTANTS MaxWrites, MaxOps, Threads
VARIABLES ops, seen    \* seen[r]: what was delivered
vars == <<rvars, ops, seen>>

Init == RInit /\ ops = [r \in Readers |-> 0] /\ seen = [r \in Readers |-> <<>>]

Ret(r) == /\ rd[r].op.ph = "done" /\ Return(r, rd[r].op.r, rd[r].op.d)
          /\ seen' = IF rd[r].op.r = "ok" /\ rd[r].op.d /= -1 THEN [seen EXCEPT ![r] = Append(@, rd[r].op.d)] ELSE seen
          /\ UNCHANGED ops
Next ==
  \/ hi < MaxWrites /\ (\E l \in lo..(hi + 1) : Write(hi + 1, l)) /\ UNCHANGED <<ops, seen>>
  \/ Clear /\ lo <= hi /\ UNCHANGED <<ops, seen>>
  \/ \E r \in Readers, i \in {"oldest", "recent", "new"}, t \in {"next", "newest"}, th \in Threads :
        Open(r, i, t, th) /\ UNCHANGED <<ops, seen>>
  \/ \E r \in Readers : rd[r].st = "open" /\ ~rd[r].thr /\ ops[r] < MaxOps /\ ops' = [ops EXCEPT ![r] = @ + 1]
        /\ (\E k \in {"can", "read", "block"} : Call(r, k, -1)) /\ UNCHANGED seen
  \/ \E r \in Readers : rd[r].st = "open" /\ rd[r].thr /\ Call(r, "close", -1) /\ UNCHANGED <<ops, seen>>
  \/ \E r \in Readers : Effect(r) /\ UNCHANGED <<ops, seen>>
  \/ \E r \in Readers : rd[r].pend /= -1 /\ Callback(r, rd[r].pend) /\ seen' = [seen EXCEPT ![r] = Append(@, rd[r].pend)] /\ UNCHANGED ops
  \/ \E r \in Readers : CallbackEnd(r) /\ UNCHANGED <<ops, seen>>
  \/ \E r \in Readers : Ret(r)

Spec == Init /\ [][Next]_vars /\ \A r \in Readers : WF_vars(Effect(r) /\ UNCHANGED <<ops, seen>>) /\ WF_vars(CallbackEnd(r) /\ UNCHANGED <<ops, seen>>)
            /\ WF_vars(rd[r].pend /= -1 /\ Callback(r, rd[r].pend) /\ seen' = [seen EXCEPT ![r] = Append(@, rd[r].pend)] /\ UNCHANGED ops)

\* In order, nothing twice.
InOrder == \A r \in Readers : \A a, b \in 1..Len(seen[r]) : a < b => seen[r][a] < seen[r][b]
\* Nothing from before the starting point.
FromStart == \A r \in Readers : \A a \in 1..Len(seen[r]) : seen[r][a] >= rd[r].s
\* In sequential mode, whatever was skipped is gone.
NoGap == \A r \in Readers : (rd[r].iter = "next" /\ rd[r].last /= 0) =>
           \A q \in rd[r].s..rd[r].last : q \in {seen[r][a] : a \in 1..Len(seen[r])} \cup {dat[rd[r].last]} \/ q < lo
\* After closing, silence.
Silent == [][\A r \in Readers : rd[r].st = "closed" => seen'[r] = seen[r]]_vars
\* A background reader catches up, and closing returns.
CatchUp == \A r \in Readers : [](rd[r].thr /\ rd[r].st = "open" /\ Ready(r)) ~> (rd[r].st = "closed" \/ ~Ready(r))
CloseReturns == \A r \in Readers : (rd[r].op.k = "close") ~> (rd[r].op.k /= "close" \/ rd[r].op.ph = "done")
=============================================================================
