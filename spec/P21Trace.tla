------------------------------ MODULE P21Trace ------------------------------
(* Recorded courses: after every operation, what the library computes with. *)
EXTENDS Backends, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, st
Bad(s, e, t) ==
  UNION {{o.what \o "-uses-another-backend" : o \in {e.obs[k] : k \in {k \in 1..Len(e.obs) : e.obs[k].got # Top(t)}}},
         IF e.op = "enter" THEN IF e.ok = (e.b = "" \/ e.b \in Known) THEN {} ELSE {IF e.ok THEN "accepted" ELSE "refused"} ELSE {},
         IF e.op = "enter" /\ e.ok /\ e.given # Top(t) THEN {"gives-another-backend"} ELSE {},
         IF e.op = "inside" THEN (IF e.ok = e.expect THEN {} ELSE {IF e.ok THEN "no-error" ELSE "error"})
                                 \cup {"inside-" \o e.who : k \in {k \in 1..Len(e.during) : e.during[k] # Selects(e.who, s)}}
         ELSE {}}
Init == c \in 1..Len(Cases) /\ l = 1 /\ st = <<"numpy">>
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               t == After(st, e)
           IN  /\ st' = t
               /\ \A b \in Bad(st, e, t) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
