--------------------------------- MODULE Map ---------------------------------
(* A finite map, as its user sees it.                                         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE m      \* from the keys present to their values

Nothing == [x \in {} |-> 0]

Keys == DOMAIN m

MapInit == m = Nothing

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Put(k, v, r) == r = "ok" /\ m' = With(m, k, v)

Del(k, r) == IF k \in Keys THEN r = "ok" /\ m' = Without(m, k)
                           ELSE r = "NOTFOUND" /\ UNCHANGED m

Pop(k, r, v) == IF k \in Keys THEN r = "ok" /\ v = m[k] /\ m' = Without(m, k)
                              ELSE r = "NOTFOUND" /\ UNCHANGED m

Get(k, r, v) == /\ IF k \in Keys THEN r = "ok" /\ v = m[k] ELSE r = "NOTFOUND"
                /\ UNCHANGED m

\* writing through the pointer a lookup returned
Poke(k, v) == k \in Keys /\ m' = With(m, k, v)

Has(k, b) == b = (k \in Keys) /\ UNCHANGED m

Size(n, e) == n = Cardinality(Keys) /\ e = (n = 0) /\ UNCHANGED m

\* es: the sequence of <<key, value>> an iteration gave
Iter(es) == /\ Len(es) = Cardinality(Keys)
            /\ \A k \in Keys : \E j \in 1..Len(es) : es[j] = <<k, m[k]>>
            /\ UNCHANGED m

Clear == m' = Nothing

(* Comparing keys: zero exactly for equal keys, opposite signs when swapped;  *)
(* equal keys have equal hashes.                                              *)
Compare(a, b, s, t, h) == /\ (s = 0) = (a = b)
                          /\ s = -t
                          /\ (a = b => h)
=============================================================================
