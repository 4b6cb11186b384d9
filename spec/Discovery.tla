------------------------------ MODULE Discovery ------------------------------
(* Finding files by a pattern while files and directories come and go.          *)
(* Paths are numbers; names[k] is the text of path k, a sequence of character   *)
(* codes.                                                                       *)
EXTENDS Glob

VARIABLES match,   \* the paths the pattern describes
          kind,    \* what is there: "-" nothing, "f" file, "d" directory, "o" anything else
          ever,    \* the paths where there has been something other than a directory
          found,   \* the paths announced
          state    \* "new", "on", "closing", "off"
dvars == <<match, kind, ever, found, state>>

DiscoveryInit(pattern, names) ==
  /\ match = {k \in 1..Len(names) : Match(Segments(pattern), Segments(names[k]))}
  /\ kind = [k \in 1..Len(names) |-> "-"]
  /\ ever = {} /\ found = {} /\ state = "new"

Put(k, t) == /\ kind[k] = "-"
             /\ kind' = [kind EXCEPT ![k] = t]
             /\ ever' = IF t = "d" THEN ever ELSE ever \cup {k}
             /\ UNCHANGED <<match, found, state>>
Take(k) == /\ kind[k] # "-"
           /\ kind' = [kind EXCEPT ![k] = "-"]
           /\ UNCHANGED <<match, ever, found, state>>

Start == state = "new" /\ state' = "on" /\ UNCHANGED <<match, kind, ever, found>>
\* Each path once, nothing that does not match, nothing that was never there. A file may be gone again already.
Found(k) == /\ state \in {"on", "closing"}
            /\ k \in (match \cap ever) \ found
            /\ found' = found \cup {k}
            /\ UNCHANGED <<match, kind, ever, state>>
\* nothing is left to be done
Quiet == /\ state = "on"
         /\ \A k \in match : kind[k] = "f" => k \in found
         /\ UNCHANGED dvars
Close == state = "on" /\ state' = "closing" /\ UNCHANGED <<match, kind, ever, found>>
Closed == state = "closing" /\ state' = "off" /\ UNCHANGED <<match, kind, ever, found>>
=============================================================================
