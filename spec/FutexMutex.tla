------------------------------ MODULE FutexMutex ------------------------------
(* How the mutex and the condition variable are made from a futex word, the   *)
(* list of held locks that the kernel looks through when a thread dies, and   *)
(* the kernel's queues. Every access to the word or the list is a step and a  *)
(* thread may die between any two. What Mutex promises follows from the       *)
(* invariants below.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Nobody, MaxCalls, MaxDeaths

VARIABLES
  word,    \* the futex: owner, waiters bit, owner-died bit
  cnd,     \* the condition variable's counter
  q, cq,   \* sleeping in the kernel on the mutex, on the condition variable
  pend,    \* each thread's pending entry
  inl,     \* is the mutex in its list of held locks?
  pc, op, init, res,
  calls, deaths,
  died,    \* the last owner died and nobody has been told
  tell,    \* what the present owner is to be told
  must,    \* of a signal or broadcast: who was waiting when it took effect and still is
  owed     \* those for whom a completed one took effect before they fell asleep

vars == <<word, cnd, q, cq, pend, inl, pc, op, init, res, calls, deaths, died, tell, must, owed>>
core == <<calls, deaths, owed>>

Free == [tid |-> Nobody, w |-> FALSE, od |-> FALSE]
Range(s) == {s[k] : k \in 1..Len(s)}
Without(s, p) == SelectSeq(s, LAMBDA x : x # p)
NoMust == [before |-> {}, left |-> {}]

Init ==
  /\ word = Free /\ cnd = 0 /\ q = <<>> /\ cq = <<>>
  /\ pend = [p \in Procs |-> FALSE] /\ inl = [p \in Procs |-> FALSE]
  /\ pc = [p \in Procs |-> "idle"] /\ op = [p \in Procs |-> ""] /\ init = [p \in Procs |-> 0] /\ res = [p \in Procs |-> ""]
  /\ calls = [p \in Procs |-> 0] /\ deaths = 0 /\ died = FALSE /\ tell = FALSE
  /\ must = [p \in Procs |-> NoMust] /\ owed = {}

\* Who has given up the mutex to wait and has not been woken.
ReleasedWait(p, c) == pc[p] \in {"released", "w1", "w2"} /\ op[p] \in {"wait", "twait"} /\ init[p] = c
Waiting(c) == {p \in Procs : pc[p] = "wq" \/ ReleasedWait(p, c)}
\* left waiting, whatever this step does to p
Leave(p) == [x \in Procs |-> [must[x] EXCEPT !.left = @ \ {p}]]

\* about to find that it need not sleep
Going(p) == pc[p] \in {"released", "w1", "w2"} /\ init[p] # cnd

At(p, l) == pc[p] = l
To(p, l) == pc' = [pc EXCEPT ![p] = l]

Acquired == died' = FALSE /\ tell' = died
Keep == UNCHANGED <<died, tell>>

-----------------------------------------------------------------------------
Call(p, o) ==
  /\ At(p, "idle") /\ calls[p] < MaxCalls
  /\ o \in {"lock", "tlock", "try"} => word.tid # p
  /\ o \in {"unlock", "wait", "twait"} => word.tid = p
  /\ op' = [op EXCEPT ![p] = o] /\ calls' = [calls EXCEPT ![p] = @ + 1]
  /\ res' = [res EXCEPT ![p] = IF o \in {"signal", "broadcast"} THEN @ ELSE ""]
  /\ init' = [init EXCEPT ![p] = IF o \in {"wait", "twait"} THEN cnd ELSE 0]
  /\ To(p, CASE o \in {"lock", "tlock", "try"} -> "start" [] o \in {"unlock", "wait", "twait"} -> "u1" [] OTHER -> "s1")
  /\ UNCHANGED <<word, cnd, q, cq, pend, inl, deaths, must, owed>> /\ Keep

\* Taking it.
Start(p) ==
  /\ At(p, "start") /\ pend' = [pend EXCEPT ![p] = TRUE] /\ To(p, "cas")
  /\ UNCHANGED <<word, cnd, q, cq, inl, op, init, res, must>> /\ UNCHANGED core /\ Keep

Cas(p, from, won, lost) ==
  /\ At(p, from)
  /\ IF word = Free THEN word' = [Free EXCEPT !.tid = p] /\ To(p, won) /\ Acquired
     ELSE UNCHANGED word /\ Keep /\ To(p, lost)
  /\ UNCHANGED <<cnd, q, cq, pend, inl, op, init, res, must>> /\ UNCHANGED core

\* A try-lock turns to the kernel only if the owner died.
TryCas(p) ==
  /\ At(p, "cas") /\ op[p] = "try"
  /\ IF word = Free THEN word' = [Free EXCEPT !.tid = p] /\ To(p, "add") /\ Acquired /\ UNCHANGED res
     ELSE /\ UNCHANGED word /\ Keep
          /\ IF word.od THEN To(p, "trykernel") /\ UNCHANGED res
             ELSE To(p, "end") /\ res' = [res EXCEPT ![p] = "EBUSY"]
  /\ UNCHANGED <<cnd, q, cq, pend, inl, op, init, must>> /\ UNCHANGED core

TryKernel(p) ==
  /\ At(p, "trykernel")
  /\ IF word.tid = Nobody THEN word' = [word EXCEPT !.tid = p] /\ To(p, "add") /\ Acquired /\ UNCHANGED res
     ELSE UNCHANGED word /\ Keep /\ To(p, "end") /\ res' = [res EXCEPT ![p] = "EBUSY"]
  /\ UNCHANGED <<cnd, q, cq, pend, inl, op, init, must>> /\ UNCHANGED core

\* The kernel gives it, or puts the caller in the queue.
KernelLock(p, from, won, sleep) ==
  /\ At(p, from)
  /\ IF word.tid = Nobody THEN word' = [word EXCEPT !.tid = p, !.w = q # <<>>] /\ To(p, won) /\ Acquired /\ UNCHANGED q
     ELSE word' = [word EXCEPT !.w = TRUE] /\ q' = Append(q, p) /\ To(p, sleep) /\ Keep
  /\ UNCHANGED <<cnd, cq, pend, inl, op, init, res, must>> /\ UNCHANGED core

GiveUp(p) ==
  /\ At(p, "lq") /\ op[p] = "tlock"
  /\ q' = Without(q, p) /\ To(p, "end") /\ res' = [res EXCEPT ![p] = "ETIMEDOUT"]
  /\ UNCHANGED <<word, cnd, cq, pend, inl, op, init, must>> /\ UNCHANGED core /\ Keep

\* Having it: into the list, and only then is the pending entry cleared.
Add(p) ==
  /\ At(p, "add") /\ inl' = [inl EXCEPT ![p] = TRUE]
  /\ res' = [res EXCEPT ![p] = IF @ = "ETIMEDOUT" THEN @ ELSE IF word.od THEN "EOWNERDEAD" ELSE "ok"]
  /\ To(p, "end")
  /\ UNCHANGED <<word, cnd, q, cq, pend, op, init, must>> /\ UNCHANGED core /\ Keep

End(p) ==
  /\ At(p, "end") /\ pend' = [pend EXCEPT ![p] = FALSE] /\ To(p, "idle")
  /\ res' = [res EXCEPT ![p] = IF @ \in {"ok", "EOWNERDEAD"} \/ op[p] = "twait" THEN "has" ELSE ""]
  /\ op' = [op EXCEPT ![p] = ""] /\ init' = [init EXCEPT ![p] = 0]
  /\ UNCHANGED <<word, cnd, q, cq, inl, must>> /\ UNCHANGED core /\ Keep

\* Giving it up.
U1(p) == /\ At(p, "u1") /\ pend' = [pend EXCEPT ![p] = TRUE] /\ To(p, "u2")
         /\ UNCHANGED <<word, cnd, q, cq, inl, op, init, res, must>> /\ UNCHANGED core /\ Keep
U2(p) == /\ At(p, "u2") /\ inl' = [inl EXCEPT ![p] = FALSE] /\ To(p, "u3")
         /\ UNCHANGED <<word, cnd, q, cq, pend, op, init, res, must>> /\ UNCHANGED core /\ Keep
U3(p) == /\ At(p, "u3") /\ word' = [word EXCEPT !.od = FALSE] /\ To(p, "u4")
         /\ UNCHANGED <<cnd, q, cq, pend, inl, op, init, res, must>> /\ UNCHANGED core /\ Keep
U4(p) == /\ At(p, "u4")
         /\ IF word = [Free EXCEPT !.tid = p] THEN word' = Free /\ To(p, "released")
            ELSE UNCHANGED word /\ To(p, "u5")
         /\ UNCHANGED <<cnd, q, cq, pend, inl, op, init, res, must>> /\ UNCHANGED core /\ Keep

\* who sleeps in q goes on having been given the mutex
Granted(p) == CASE pc[p] = "lq" -> "add" [] pc[p] = "wm" -> "add" [] pc[p] = "w4q" -> "add"

U5(p) ==
  /\ At(p, "u5")
  /\ IF q = <<>> THEN word' = Free /\ To(p, "released") /\ UNCHANGED q /\ Keep
     ELSE LET h == Head(q) IN
          /\ word' = [tid |-> h, w |-> TRUE, od |-> FALSE] /\ q' = Tail(q)
          /\ pc' = [pc EXCEPT ![p] = "released", ![h] = Granted(h)] /\ Acquired
  /\ UNCHANGED <<cnd, cq, pend, inl, op, init, res, must>> /\ UNCHANGED core

Released(p) ==
  /\ At(p, "released") /\ pend' = [pend EXCEPT ![p] = FALSE]
  /\ IF op[p] = "unlock" THEN To(p, "idle") /\ op' = [op EXCEPT ![p] = ""] ELSE To(p, "w1") /\ UNCHANGED op
  /\ UNCHANGED <<word, cnd, q, cq, inl, init, res, must>> /\ UNCHANGED core /\ Keep

\* Waiting on the condition variable.
W1(p) == /\ At(p, "w1") /\ pend' = [pend EXCEPT ![p] = TRUE] /\ To(p, "w2")
         /\ UNCHANGED <<word, cnd, q, cq, inl, op, init, res, must>> /\ UNCHANGED core /\ Keep
W2(p) == /\ At(p, "w2")
         /\ IF cnd # init[p] THEN To(p, "w4") /\ UNCHANGED cq /\ must' = Leave(p) /\ owed' = owed \ {p}
            ELSE cq' = Append(cq, p) /\ To(p, "wq") /\ UNCHANGED <<must, owed>>
         /\ UNCHANGED <<word, cnd, q, pend, inl, op, init, res, calls, deaths>> /\ Keep
WExpire(p) ==
  /\ pc[p] \in {"wq", "wm"} /\ op[p] = "twait"
  /\ cq' = Without(cq, p) /\ q' = Without(q, p) /\ To(p, "w4") /\ must' = Leave(p)
  /\ res' = [res EXCEPT ![p] = "ETIMEDOUT"]
  /\ UNCHANGED <<word, cnd, pend, inl, op, init>> /\ UNCHANGED core /\ Keep

\* Waking: the counter first, then the queue, if the counter is still the same.
S1(p) ==
  /\ At(p, "s1") /\ cnd' = cnd + 1 /\ init' = [init EXCEPT ![p] = cnd + 1]
  /\ LET ws == Waiting(cnd) IN
     must' = [must EXCEPT ![p] = [before |-> ws, left |-> ws]]
  /\ To(p, "s2")
  /\ UNCHANGED <<word, q, cq, pend, inl, op, res>> /\ UNCHANGED core /\ Keep

Count(p) == IF op[p] = "broadcast" THEN Len(cq) ELSE IF Len(cq) > 2 THEN 2 ELSE Len(cq)
S2(p) ==
  /\ At(p, "s2")
  /\ IF cnd # init[p]
     THEN init' = [init EXCEPT ![p] = cnd] /\ UNCHANGED <<word, q, cq, pc, must, owed>> /\ Keep
     ELSE LET n == Count(p)
              moved == SubSeq(cq, 1, n)
              first == n > 0 /\ word.tid = Nobody       \* it takes the mutex at once
              rest == IF first THEN Tail(moved) ELSE moved
          IN /\ UNCHANGED init /\ cq' = SubSeq(cq, n + 1, Len(cq))
             /\ q' = q \o rest
             /\ word' = IF n = 0 THEN word
                        ELSE IF first THEN [word EXCEPT !.tid = moved[1], !.w = @ \/ rest # <<>>] ELSE [word EXCEPT !.w = TRUE]
             /\ IF first THEN Acquired ELSE Keep
             /\ pc' = [x \in Procs |-> IF x = p THEN "s3" ELSE IF first /\ x = moved[1] THEN "add"
                                       ELSE IF x \in Range(rest) THEN "wm" ELSE pc[x]]
             /\ must' = [x \in Procs |-> [must[x] EXCEPT !.left = @ \ Range(moved)]]
             /\ owed' = owed \cup {x \in must[p].left : Going(x)}
  /\ UNCHANGED <<cnd, pend, inl, op, res, calls, deaths>>
S3(p) == /\ At(p, "s3") /\ To(p, "idle") /\ must' = [must EXCEPT ![p] = NoMust]
         /\ op' = [op EXCEPT ![p] = ""] /\ init' = [init EXCEPT ![p] = 0]
         /\ UNCHANGED <<word, cnd, q, cq, pend, inl, res>> /\ UNCHANGED core /\ Keep

\* The kernel looks at the list and the pending entry of a thread that ends.
Die(p) ==
  /\ pc[p] # "dead" /\ deaths < MaxDeaths /\ deaths' = deaths + 1
  /\ cq' = Without(cq, p)
  /\ LET q1 == Without(q, p)
         mine == word.tid = p /\ (pend[p] \/ inl[p])
     IN IF mine /\ q1 # <<>>
        THEN LET h == Head(q1) IN
             /\ word' = [tid |-> h, w |-> TRUE, od |-> TRUE] /\ q' = Tail(q1)
             /\ pc' = [pc EXCEPT ![p] = "dead", ![h] = Granted(h)] /\ died' = FALSE /\ tell' = TRUE
        ELSE /\ q' = q1 /\ To(p, "dead")
             /\ IF mine THEN word' = [word EXCEPT !.tid = Nobody, !.od = TRUE] /\ died' = TRUE /\ UNCHANGED tell
                ELSE UNCHANGED word /\ Keep
  /\ must' = [Leave(p) EXCEPT ![p] = NoMust] /\ owed' = owed \ {p}
  /\ pend' = [pend EXCEPT ![p] = FALSE] /\ inl' = [inl EXCEPT ![p] = FALSE]
  /\ op' = [op EXCEPT ![p] = ""] /\ res' = [res EXCEPT ![p] = ""]
  /\ init' = [init EXCEPT ![p] = 0] /\ calls' = [calls EXCEPT ![p] = 0]
  /\ UNCHANGED cnd

Step(p) ==
  \/ Start(p)
  \/ op[p] # "try" /\ Cas(p, "cas", "add", "kernel")
  \/ TryCas(p) \/ TryKernel(p) \/ KernelLock(p, "kernel", "add", "lq") \/ GiveUp(p) \/ Add(p) \/ End(p)
  \/ U1(p) \/ U2(p) \/ U3(p) \/ U4(p) \/ U5(p) \/ Released(p)
  \/ W1(p) \/ W2(p) \/ WExpire(p) \/ Cas(p, "w4", "add", "w4k") \/ KernelLock(p, "w4k", "add", "w4q")
  \/ S1(p) \/ S2(p) \/ S3(p)

Next == \E p \in Procs : \/ Step(p) \/ Die(p)
                         \/ \E o \in {"lock", "tlock", "try", "unlock", "wait", "twait", "signal", "broadcast"} : Call(p, o)

Spec == Init /\ [][Next]_vars
Same == Permutations(Procs)
Live == Spec /\ \A p \in Procs : WF_vars(Step(p))

-----------------------------------------------------------------------------
\* Somebody with the mutex is its owner: no two have it, and none is robbed of it.
Has(p) == \/ res[p] = "has"
          \/ pc[p] \in {"add", "u1", "u2", "u3", "u4", "u5"}
          \/ pc[p] = "end" /\ (res[p] \in {"ok", "EOWNERDEAD"} \/ op[p] = "twait")
Exclusive == \A p \in Procs : Has(p) => word.tid = p

\* The dead own nothing.
Survives == word.tid # Nobody => pc[word.tid] # "dead"

\* Whoever sleeps for the mutex is known to an owner, who will pass it on.
Known == q # <<>> => word.tid # Nobody /\ word.w

\* The death of an owner is told to the next owner, and to nobody else.
Told == /\ \A p \in Procs : pc[p] = "end" /\ res[p] \in {"ok", "EOWNERDEAD"} => (res[p] = "EOWNERDEAD" <=> tell)
        /\ word.tid = Nobody => (word.od <=> died)

\* A broadcast has ended every wait that was going on, a signal at least one.
Woken == /\ \A p \in Procs : pc[p] = "s3" =>
              LET asleep == {x \in must[p].left : ~Going(x)} IN
              IF op[p] = "broadcast" THEN asleep = {} ELSE must[p].before # {} => asleep # must[p].before
         /\ \A p \in owed : pc[p] # "wq"

\* The queues hold those who sleep.
Queues == /\ Range(q) = {p \in Procs : pc[p] \in {"lq", "wm", "w4q"}}
          /\ Range(cq) = {p \in Procs : pc[p] = "wq"}

\* Nothing but the wait for a living owner, or for a signal, goes on for ever.
Ends == \A p \in Procs : pc[p] \in {"start", "cas", "kernel", "trykernel", "add", "end", "u1", "u2", "u3", "u4", "u5", "s1", "s2", "s3"}
                           ~> pc[p] \in {"idle", "dead", "lq", "w1"}
=============================================================================
