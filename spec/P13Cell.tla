------------------------------- MODULE P13Cell -------------------------------
(* A cell of the chart receives batches of items (category, score) and       *)
(* lists, best first, the best score of every category, cut at the beam      *)
(* (items tied with the last one that fits are kept).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, cell      \* cell: set of <<cat, score>>
Best(xs) == {x \in xs : \A y \in xs : y[1] = x[1] => y[2] <= x[2]}
Beam(xs, b) == {x \in xs : Cardinality({y \in xs : y[2] > x[2]}) < b}
Add(xs, batch) == Best(xs \cup {<<batch[i].c, batch[i].s>> : i \in 1..Len(batch)})
Bad(e, want) ==
  IF ~e.ok THEN {"refused"} ELSE
  LET got == {<<e.trees[i].c, e.trees[i].s>> : i \in 1..Len(e.trees)}
  IN  (IF got = want THEN {} ELSE {"contents"})
      \cup (IF Cardinality({x[1] : x \in got}) = Len(e.trees) THEN {} ELSE {"category-twice"})
      \cup (IF \A i \in 1..(Len(e.trees) - 1) : e.trees[i].s >= e.trees[i + 1].s THEN {} ELSE {"order"})
Init == c \in 1..Len(Cases) /\ l = 1 /\ cell = {}
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               full == Add(cell, e.batch)
           IN  /\ cell' = Beam(full, Cases[c].beam)
               /\ \A b \in Bad(e, Beam(full, Cases[c].beam)) : PrintT("@@FAIL|" \o ToString(c) \o "|cell:" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, cell>>
=============================================================================
