------------------------------ MODULE P04Trace ------------------------------
(* Recorded histories of the real store.  Values, behaviours and documents   *)
(* are given by the index of the projection in the pool of the case.         *)
EXTENDS Serial, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, st, dp, beh
Same(a, b) == a = b
Bad(s, e, t) ==
  IF ~e.ok THEN {e.op \o "-fails"}
  ELSE UNION {
    IF Len(e.objs) # Len(t.objs) THEN {e.op \o "-loses-objects"} ELSE
      {IF j = Len(t.objs) /\ e.op \in {"load", "copy"} THEN e.op \o "-gives-another-value"
       ELSE e.op \o "-changes-another-object" : j \in {j \in 1..Len(t.objs) : ~Same(e.objs[j], t.objs[j])}},
    {e.op \o "-changes-the-data" : k \in {k \in 1..Len(dp) : ~(e.op = "scribble" /\ e.i = k) /\ e.docs[k] # dp[k]}},
    IF e.b > 0 /\ e.objs[e.at] \in DOMAIN beh /\ beh[e.objs[e.at]] # e.b THEN {e.op \o "-behaves-differently"} ELSE {},
    {"not-equal" : k \in {k \in 1..Len(e.eq) : t.objs[k] = t.objs[e.at] /\ ~(e.eq[k].eq /\ e.eq[k].re)}},
    {"equal-but-other-hash" : k \in {k \in 1..Len(e.eq) : t.objs[k] = t.objs[e.at] /\ ~e.eq[k].ha}},
    {"same-object" : k \in {k \in 1..Len(e.eq) : e.eq[k].id}}}
Init == /\ c \in 1..Len(Cases) /\ l = 1
        /\ st = [objs |-> <<Cases[c].v>>, docs |-> <<>>]
        /\ dp = <<>>
        /\ beh = [v \in {Cases[c].v} |-> Cases[c].b]
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               o == [op |-> e.op, i |-> e.i, v |-> IF e.op = "edit" /\ e.ok THEN e.objs[e.i] ELSE 0]
               t == IF e.ok THEN After(st, o) ELSE st
           IN  /\ st' = t
               /\ dp' = IF e.ok THEN e.docs ELSE dp
               /\ beh' = IF e.ok /\ e.b > 0 /\ e.objs[e.at] \notin DOMAIN beh
                         THEN beh @@ (e.objs[e.at] :> e.b) ELSE beh
               /\ \A b \in Bad(st, e, t) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.how \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = IF Cases[c].events[l].ok THEN l + 1 ELSE Len(Cases[c].events) + 1
        /\ UNCHANGED c
        /\ IF l' = Len(Cases[c].events) + 1 THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, st, dp, beh>>
=============================================================================
