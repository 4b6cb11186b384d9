----------------------------- MODULE FlatPacket -----------------------------
(* The serialised form, cell by cell, and the reads made directly on it.

   A cell holds one byte of text (0 ends a text) or one offset.  Layout: id, number of headers, for every header the offsets of
   its key and of its value, the offset of the payload, then the texts and the payload.  The model checker goes through every
   packet within the bounds: its headers are written block by block, one field at a time as the serialiser does, with the write
   position in the index and the one in the content kept apart. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Texts, Pays, MaxBlocks, MaxPerBlock

ASSUME Texts \subseteq Seq(1..9)

VARIABLES blocks, pay, cells, bi, hi, idx, off, pc
vars == <<blocks, pay, cells, bi, hi, idx, off, pc>>

Hdr == Texts \X Texts
BlockSeqs == UNION {[1..n -> UNION {[1..m -> Hdr] : m \in 0..MaxPerBlock}] : n \in 1..MaxBlocks}

RECURSIVE Flatten(_)
Flatten(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flatten(Tail(bs))
Hs == Flatten(blocks)
RECURSIVE Sum(_)
Sum(hs) == IF hs = <<>> THEN 0 ELSE Len(hs[1][1]) + Len(hs[1][2]) + 2 + Sum(Tail(hs))

IdLen == 1
IndexSize == IdLen + 1 + 2 * Len(Hs) + 1
SerialSize == IndexSize + Sum(Hs) + Len(pay)

Blank == 999
Init == /\ blocks \in BlockSeqs /\ pay \in Pays
        /\ cells = [n \in 0..(SerialSize - 1) |-> Blank]
        /\ bi = 1 /\ hi = 1 /\ idx = 0 /\ off = IndexSize /\ pc = "id"

Text(t) == t \o <<0>>
\* writes the sequence s at position at; writing outside or over something already written is an error of the design
Write(c, at, s) == [n \in DOMAIN c |-> IF n >= at /\ n < at + Len(s) THEN s[n - at + 1] ELSE c[n]]
Fits(c, at, s) == \A n \in at..(at + Len(s) - 1) : n \in DOMAIN c /\ c[n] = Blank

WriteId == /\ pc = "id" /\ Assert(Fits(cells, 0, <<7, Len(Hs)>>), "overlap")
           /\ cells' = Write(cells, 0, <<7, Len(Hs)>>) /\ idx' = IdLen + 1 /\ pc' = "hdr"
           /\ UNCHANGED <<blocks, pay, bi, hi, off>>
WriteHdr == /\ pc = "hdr" /\ bi <= Len(blocks) /\ hi <= Len(blocks[bi])
            /\ LET h == blocks[bi][hi]
                   k == Text(h[1])
                   v == Text(h[2])
                   c1 == Write(cells, idx, <<off, off + Len(k)>>)
               IN /\ Assert(Fits(cells, idx, <<0, 0>>) /\ Fits(cells, off, k \o v), "overlap")
                  /\ cells' = Write(c1, off, k \o v)
                  /\ off' = off + Len(k) + Len(v)
            /\ idx' = idx + 2 /\ hi' = hi + 1 /\ UNCHANGED <<blocks, pay, bi, pc>>
NextBlock == /\ pc = "hdr" /\ bi <= Len(blocks) /\ hi > Len(blocks[bi]) /\ bi' = bi + 1 /\ hi' = 1
             /\ UNCHANGED <<blocks, pay, cells, idx, off, pc>>
WritePay == /\ pc = "hdr" /\ bi > Len(blocks) /\ Assert(Fits(cells, idx, <<0>>) /\ Fits(cells, off, pay), "overlap")
            /\ cells' = Write(Write(cells, idx, <<off>>), off, pay) /\ pc' = "done"
            /\ UNCHANGED <<blocks, pay, bi, hi, idx, off>>
Next == WriteId \/ WriteHdr \/ NextBlock \/ WritePay
Spec == Init /\ [][Next]_vars

\* reads on the finished form
RECURSIVE TextAt(_)
TextAt(n) == IF cells[n] = 0 THEN <<>> ELSE <<cells[n]>> \o TextAt(n + 1)
Num == cells[IdLen]
HdrAt(n) == <<TextAt(cells[IdLen + 1 + 2 * n]), TextAt(cells[IdLen + 2 + 2 * n])>>
PayOff == cells[IdLen + 1 + 2 * Num]
PayAt == [n \in 1..(SerialSize - PayOff) |-> cells[PayOff + n - 1]]

RoundTrip == pc = "done" =>
  /\ \A n \in DOMAIN cells : cells[n] # Blank
  /\ cells[0] = 7 /\ Num = Len(Hs)
  /\ \A n \in 0..(Num - 1) : HdrAt(n) = Hs[n + 1]
  /\ PayAt = pay
=============================================================================
