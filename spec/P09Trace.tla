------------------------------ MODULE P09Trace ------------------------------
(***************************************************************************)
(* Conversion to discopy and back.  Diagrams of the two libraries are       *)
(* recorded in the same form (types as objects with their winding, layers   *)
(* as left type, box, right type; boxes by kind, name, winding, dagger,     *)
(* type and data), so that the conversion is the identity on that form and  *)
(* preserves composition, tensor and daggers.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l

Same(a, b) ==   \* which part of the two diagrams differs
  IF a = b THEN {}
  ELSE IF a.dom # b.dom THEN {"dom"}
  ELSE IF a.cod # b.cod THEN {"cod"}
  ELSE IF Len(a.layers) # Len(b.layers) THEN {"boxes"}
  ELSE UNION { LET x == a.layers[i] y == b.layers[i] IN
       IF x = y THEN {}
       ELSE IF x.L # y.L \/ x.R # y.R THEN {"offset"}
       ELSE IF x.b.k # y.b.k THEN {"kind"}
       ELSE IF x.b.d # y.b.d \/ x.b.c # y.b.c THEN {"type"}
       ELSE {"box"} : i \in 1..Len(a.layers) }

\* layers fit together
Fits(x) ==
  LET at(i) == IF i = 1 THEN x.dom ELSE x.layers[i - 1].L \o x.layers[i - 1].b.c \o x.layers[i - 1].R
      n == Len(x.layers)
  IN  /\ \A i \in 1..n : x.layers[i].L \o x.layers[i].b.d \o x.layers[i].R = at(i)
      /\ x.cod = at(n + 1)

Then(x, y) == [dom |-> x.dom, cod |-> y.cod, layers |-> x.layers \o y.layers]
Beside(x, y) ==
  [dom |-> x.dom \o y.dom, cod |-> x.cod \o y.cod,
   layers |-> [i \in 1..Len(x.layers) |-> [x.layers[i] EXCEPT !.R = @ \o y.dom]]
           \o [i \in 1..Len(y.layers) |-> [y.layers[i] EXCEPT !.L = x.cod \o @]]]

Bad(x, e) ==
  IF e.op = "foreign"     \* a diagram of discopy: refused, or taken as it is
  THEN IF ~e.ok THEN {} ELSE { "as-" \o b : b \in Same(x.d, e.d) } \cup (IF e.kind THEN {} ELSE {"category"})
  ELSE IF ~e.ok THEN {"failed"}
  ELSE CASE e.op = "there" -> { "there-" \o b : b \in Same(x.d, e.d) }
                              \cup (IF Fits(e.d) THEN {} ELSE {"not-a-diagram"})
         [] e.op = "back"  -> { "back-" \o b : b \in Same(x.d, e.d) }
                              \cup (IF e.eq THEN {} ELSE {"not-equal"})
                              \cup (IF e.kind THEN {} ELSE {"category"})
         [] e.op = "then"   -> { "then-" \o b : b \in Same(Then(x.d, e.y), e.d) }
         [] e.op = "beside" -> { "beside-" \o b : b \in Same(Beside(x.d, e.y), e.d) }

Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o Cases[c].cat \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
