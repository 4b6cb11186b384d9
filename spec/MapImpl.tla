------------------------------- MODULE MapImpl -------------------------------
(* The table behind the map: open addressing, entries kept in order of the    *)
(* distance to where their hash puts them, removal by shifting back, growth   *)
(* by inserting everything into a table of twice the size. It implements Map  *)
(* for every hash function.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS K, V, H        \* keys, values, possible hashes
ASSUME H \subseteq Nat

VARIABLES tab, hash      \* tab[i] = <<distance + 1 (0: free), key, value>>

Free == <<0, 0, 0>>
Cap(t) == Len(t)
At(t, i) == t[(i % Cap(t)) + 1]
Set(t, i, e) == [t EXCEPT ![(i % Cap(t)) + 1] = e]
Used(t) == Cardinality({j \in 1..Len(t) : t[j][1] > 0})
New(n) == [j \in 1..n |-> Free]

RECURSIVE Find(_, _, _, _)
Find(t, k, i, off) ==
  IF off > At(t, i)[1] THEN -1
  ELSE IF At(t, i)[2] = k THEN i % Cap(t)
  ELSE Find(t, k, i + 1, off + 1)
Where(t, k) == IF Used(t) = 0 THEN -1 ELSE Find(t, k, hash[k], 1)

RECURSIVE Ins(_, _, _)
Ins(t, i, e) ==
  LET x == At(t, i) IN
  IF x[1] = 0 THEN Set(t, i, e)
  ELSE IF x[2] = e[2] THEN Set(t, i, <<x[1], x[2], e[3]>>)
  ELSE IF e[1] > x[1] THEN Ins(Set(t, i, e), i + 1, <<x[1] + 1, x[2], x[3]>>)
  ELSE Ins(t, i + 1, <<e[1] + 1, e[2], e[3]>>)

RECURSIVE Refill(_, _, _)
Refill(t, from, j) ==
  IF j > Len(from) THEN t
  ELSE Refill(IF from[j][1] = 0 THEN t ELSE Ins(t, hash[from[j][2]], <<1, from[j][2], from[j][3]>>), from, j + 1)
Grown(t) == IF Used(t) * 2 >= Cap(t) THEN Refill(New(IF Cap(t) = 0 THEN 4 ELSE 2 * Cap(t)), t, 1) ELSE t

RECURSIVE Shift(_, _)
Shift(t, i) ==    \* slot i is free
  LET x == At(t, i + 1) IN
  IF x[1] > 1 THEN Shift(Set(Set(t, i, <<x[1] - 1, x[2], x[3]>>), i + 1, Free), i + 1) ELSE t

Init == tab = <<>> /\ hash \in [K -> H]

DoPut(k, v) == LET t == Grown(tab) IN tab' = Ins(t, hash[k], <<1, k, v>>) /\ UNCHANGED hash
DoDel(k) == /\ tab' = IF Where(tab, k) = -1 THEN tab ELSE Shift(Set(tab, Where(tab, k), Free), Where(tab, k))
            /\ UNCHANGED hash

Next == \E k \in K : DoDel(k) \/ \E v \in V : DoPut(k, v)
Spec == Init /\ [][Next]_<<tab, hash>>

--------------------------------------------------------------------------
Here == {j \in 1..Len(tab) : tab[j][1] > 0}
Content == [k \in {tab[j][2] : j \in Here} |-> tab[CHOOSE j \in Here : tab[j][2] = k][3]]

A == INSTANCE Map WITH m <- Content

NoDuplicates == \A a, b \in Here : tab[a][2] = tab[b][2] => a = b
Distances == \A j \in Here : (j - 1) = (hash[tab[j][2]] + tab[j][1] - 1) % Cap(tab)
NoGaps == \A j \in Here : \A d \in 1..(tab[j][1] - 1) : At(tab, j - 1 + Cap(tab) - d)[1] > 0
Ordered == \A j \in Here : At(tab, j)[1] <= tab[j][1] + 1
FindsAll == \A k \in K : (Where(tab, k) # -1) = (k \in DOMAIN Content)

\* every step is a step of the map it implements
Refines == [][\E k \in K : \/ \E v \in V : A!Put(k, v, "ok")
                           \/ A!Del(k, "ok") \/ A!Del(k, "NOTFOUND")]_Content
=============================================================================
