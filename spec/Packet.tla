------------------------------- MODULE Packet -------------------------------
(* Packets and what may be done with them.

   A packet is an id, a bag of headers (key and value texts) and a payload.  Its headers are presented in some order; the order
   is not promised to survive serialisation or copying, but one object presents them in one order.  obj maps every object (a
   packet with its blocks of headers, a serialised packet, or a C++ wrapper) to the packet it stands for, ord to the order in
   which it presents the headers, and its to the iterators. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES obj, ord, its, ids, size

pvars == <<obj, ord, its, ids, size>>

Empty == [x \in {} |-> x]
PacketInit == obj = Empty /\ ord = Empty /\ its = Empty /\ ids = {} /\ size = Empty

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A n \in 1..Len(s) : Count(s, s[n]) = Count(t, s[n])

\* a long payload is recorded as <<-1, size, digest>>
PaySize(p) == IF p # <<>> /\ p[1] = -1 THEN p[2] ELSE Len(p)
RECURSIVE Sum(_)
Sum(hs) == IF hs = <<>> THEN 0 ELSE Len(hs[1][1]) + Len(hs[1][2]) + 2 + Sum(Tail(hs))
Content(p) == Sum(p.hs) + PaySize(p.pay)

Same(h, id, hs, pay) == obj[h].id = id /\ SameBag(obj[h].hs, hs) /\ obj[h].pay = pay

HexDigit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F", "a", "b", "c", "d", "e", "f"}
\* a random id: 8-4-4-4-12 hexadecimal digits, version 4
IdShape(cs) == /\ Len(cs) = 36
               /\ \A n \in 1..36 : IF n \in {9, 14, 19, 24} THEN cs[n] = "-" ELSE cs[n] \in HexDigit
               /\ cs[15] = "4" /\ cs[20] \in {"8", "9", "A", "B", "a", "b"}

\* the user describes a packet; with a fresh id if fresh
Make(h, id, hs, pay) ==
  /\ obj' = Put(obj, h, [id |-> id, hs |-> hs, pay |-> pay]) /\ ids' = ids \cup {id}
  /\ UNCHANGED <<ord, its, size>>
FreshId(id, cs) == id \notin ids /\ IdShape(cs) /\ ids' = ids \cup {id} /\ UNCHANGED <<obj, ord, its, size>>
\* a C++ packet made without an id gets a fresh one
MakeFresh(h, id, cs, hs, pay) ==
  /\ id \notin ids /\ IdShape(cs)
  /\ Make(h, id, hs, pay)

\* h2 is made from h (serialised, deserialised, copied, wrapped); err is what the allocator was told to answer, dirty counts the
\* bytes written outside what was allocated, asked is the space asked for and got what the result says it occupies
Derive(kind, h, h2, err, r, dirty, asked, got) ==
  /\ r = err /\ dirty = 0
  /\ IF err = "ok"
     THEN /\ obj' = Put(obj, h2, obj[h])
          /\ kind = "ser" => /\ got = asked
                             /\ h \in DOMAIN size => asked = size[h]
          /\ size' = IF kind = "ser" THEN Put(size, h2, asked) ELSE size
     ELSE UNCHANGED <<obj, size>>
  /\ UNCHANGED <<ord, its, ids>>

\* the statistics: the number of headers, the bytes of content, and the bytes the serialised form takes
Stats(h, n, c, s) ==
  /\ n = Len(obj[h].hs) /\ c = Content(obj[h]) /\ s > c
  /\ h \in DOMAIN size => s = size[h]
  /\ size' = Put(size, h, s)
  /\ UNCHANGED <<obj, ord, its, ids>>

\* everything there is to see, headers in the order of a complete pass
Observe(h, id, hs, pay) ==
  /\ Same(h, id, hs, pay)
  /\ h \in DOMAIN ord => ord[h] = hs
  /\ ord' = Put(ord, h, hs)
  /\ UNCHANGED <<obj, its, ids, size>>
\* C++ headers are presented as a bag
ObserveBag(h, id, hs, pay) == Same(h, id, hs, pay) /\ UNCHANGED pvars

Header(h, n, r, hdr) ==
  /\ IF n < Len(ord[h]) THEN r = "ok" /\ hdr = ord[h][n + 1] ELSE r = "NOTFOUND"
  /\ UNCHANGED pvars

\* iterators: the position is the number of headers passed
IterOpen(it, h) == its' = Put(its, it, [h |-> h, pos |-> 0]) /\ UNCHANGED <<obj, ord, ids, size>>
NextMatch(it, any, key, r, hdr) ==
  LET o == ord[its[it].h]
      cand == {n \in (its[it].pos + 1)..Len(o) : any \/ o[n][1] = key}
  IN /\ IF cand = {}
        THEN r \in {"DONE", "NOTFOUND"} /\ its' = [its EXCEPT ![it].pos = Len(o)]
        ELSE LET n == CHOOSE x \in cand : \A y \in cand : x <= y
             IN r = "ok" /\ hdr = o[n] /\ its' = [its EXCEPT ![it].pos = n]
     /\ UNCHANGED <<obj, ord, ids, size>>

Drop(h) == obj' = [x \in DOMAIN obj \ {h} |-> obj[x]] /\ UNCHANGED <<ord, its, ids, size>>
=============================================================================
