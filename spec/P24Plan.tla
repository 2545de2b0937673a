------------------------------ MODULE P24Plan ------------------------------
(* The plan of every run of the given histories of command lines.            *)
EXTENDS Cli, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Res(x) == History(x.runs, 1, NoConfs)
Plans(x) == LET h == Res(x) IN
  [k \in 1..Len(h) |-> [verdict |-> h[k].verdict, why |-> h[k].why, plan |-> Plan(h[k].options)]]
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED c
        /\ PrintT("@@RUN|" \o ToJson([c |-> c, plans |-> Plans(Cases[c])]))
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
