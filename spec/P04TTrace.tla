------------------------------ MODULE P04TTrace -----------------------------
(* CCG categories written and read by the library.                           *)
EXTENDS Serial, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Bad(x) ==
  CASE x.k = "write" ->
         LET s == IF x.pretty THEN Pretty(x.t) ELSE Show(x.t)
         IN  IF ~x.ok THEN {"refused"} ELSE IF x.s # s THEN {"other-text"} ELSE {}
    [] OTHER ->
         LET r == Read(x.s)
         IN  IF r.ok # x.ok THEN {IF x.ok THEN "accepted" ELSE "refused"}
             ELSE IF ~r.ok THEN (IF x.err = "CCGParseError" THEN {} ELSE {"other-error"})
             ELSE (IF x.t # (IF x.map THEN Mapped(r.t, x.from, x.to) ELSE r.t) THEN {"another-type"} ELSE {})
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l = 1 /\ l' = 2 /\ UNCHANGED c
        /\ \A b \in Bad(Cases[c]) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o Cases[c].k \o ":" \o b \o "|")
        /\ PrintT("@@DONE|1")
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
