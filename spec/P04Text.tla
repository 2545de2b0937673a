------------------------------- MODULE P04Text ------------------------------
(* Writing and reading CCG categories: every category up to a depth, and     *)
(* every text up to a length.                                                *)
EXTENDS Serial, TLC, Json
CONSTANTS Depth, MaxLen
VARIABLE x
Atoms == {<<"e">>, <<"a", <<"n">>>>, <<"a", <<"s", "[", "d", "]">>>>}
RECURSIVE Types(_)
Types(k) == IF k = 0 THEN Atoms
            ELSE LET T == Types(k - 1)
                 IN  T \cup {<<"c", a, d, b>> : a \in T, d \in Slashes, b \in T}
RECURSIVE Texts(_)
Parts == {<<"(">>, <<")">>, <<"/">>, <<"\\">>, <<"n">>, Conj}
Texts(k) == IF k = 0 THEN {<<>>} ELSE LET T == Texts(k - 1) IN T \cup {s \o p : s \in {u \in T : TRUE}, p \in Parts}
Init == x \in ({[k |-> "type", t |-> t] : t \in Types(Depth)} \cup {[k |-> "text", s |-> s] : s \in Texts(MaxLen)})
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
ReadsBack == x.k = "type" => RoundTrips(x.t) /\ Read(Show(x.t)) = Yes(x.t, Len(Show(x.t)) + 1)
(* what was read writes to a text that reads the same                        *)
Stable == x.k = "text" => LET r == Read(x.s) IN r.ok => (~RoundTrips(r.t) \/ (Read(Show(r.t)).ok /\ Read(Show(r.t)).t = r.t))
PrettyTells == x.k = "type" => \A u \in Types(1) : Pretty(x.t) = Pretty(u) => x.t = u
Emit == x.k = "text" => PrintT("@@RUN|" \o ToJson(x.s))
=============================================================================
