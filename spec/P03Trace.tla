------------------------------ MODULE P03Trace ------------------------------
(***************************************************************************)
(* One functor object, called many times.  The specification is stateless: *)
(* each answer is the functorial image of its argument (or a refusal when  *)
(* a box in it has an ill-typed image), whatever was asked before and      *)
(* whatever the caller did to earlier answers.                             *)
(***************************************************************************)
EXTENDS Functors, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Bad(k, e) ==
  CASE e.op = "mutate" -> {}
    [] e.op = "ty" -> IF ~e.ok THEN {"refused-legal"}
                      ELSE IF e.v = FTy(k.obm, e.t) THEN {} ELSE {"type-image"}
    [] e.op = "diag" ->
       IF FLegal(k.obm, k.arm, e.d) THEN
         IF ~e.ok THEN {"refused-legal"}
         ELSE LET x == FDiag(k.obm, k.arm, e.d)
                  o == e.out
              IN IF ~WellTyped(o) THEN {"ill-typed"}
                 ELSE (IF o.dom = x.dom /\ o.cod = x.cod THEN {} ELSE {"dom-cod"})
                   \cup (IF RealBoxes(o) = RealBoxes(x) THEN {} ELSE {"boxes"})
                   \cup (IF SameBag(StructBoxes(o), StructBoxes(x)) THEN {} ELSE {"structure"})
                   \cup (IF Wiring(o) = Wiring(x) THEN {} ELSE {"wiring"})
       ELSE IF e.ok THEN {"accepted-ill-typed"} ELSE {}
    [] OTHER -> {"unknown-operation"}
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l] IN
           \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
