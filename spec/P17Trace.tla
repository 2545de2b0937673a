------------------------------ MODULE P17Trace ------------------------------
(* Readings of sentences, judged against the documented shapes.              *)
EXTENDS Readers, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Diff(o, x) ==
  IF ~D!WellTyped(o) THEN {"ill-typed"}
  ELSE (IF o.dom = <<>> THEN {} ELSE {"domain"})
       \cup (IF o.cod = x.cod THEN {} ELSE {"codomain"})
       \cup (IF D!RealBoxes(o) = D!RealBoxes(x) THEN {} ELSE {"boxes"})
       \cup (IF D!Wiring(o) = D!Wiring(x) THEN {} ELSE {"wiring"})
Bad(e) ==
  CASE e.op = "linear" ->
        LET x == LinearD(e.start, e.comb, e.ws, e.wt)
        IN  IF e.ok THEN IF x.ok THEN Diff(e.d, x.d) ELSE {"accepted"}
            ELSE IF x.ok THEN {"refused"} ELSE {}
    [] e.op = "spiders" -> IF ~e.ok THEN {"refused"} ELSE Diff(e.d, SpidersD(e.ws, e.wt))
    [] e.op = "badflag" -> IF e.ok \/ e.err # "ValueError" THEN {"accepted"} ELSE {}
    [] e.op = "batch" -> IF ~e.ok THEN {"refused"} ELSE IF e.rs = e.one THEN {} ELSE {"differs"}
    [] e.op = "tree" ->
        LET t == IF e.collapse THEN NounT(e.tree) ELSE e.tree
            ts == IF AllFit(t) THEN ResolvedTrees(t, t.cat) ELSE {}
            loose == ts # {} /\ Loose(t, t.cat)
            diffs == {Diff(e.d, TreeD(x, e.mode, e.wt)) : x \in ts}
        IN  IF ts = {} THEN {}
            ELSE IF ~e.ok THEN IF loose THEN {} ELSE {"refused"}
            ELSE IF {} \in diffs \/ (loose /\ e.mode = "RULE_TYPE") THEN {}
            ELSE CHOOSE x \in diffs : \A y \in diffs : Cardinality(x) <= Cardinality(y)
    [] OTHER -> {"unknown-operation"}
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l] IN
           \A b \in Bad(e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
