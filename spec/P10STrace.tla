------------------------------ MODULE P10STrace ------------------------------
(* Free symbols and substitution.  Events on one diagram after the other:   *)
(*   free: the reported free symbols;                                        *)
(*   lambdify: values for some symbols, in some order, and the result;       *)
(*   map: one symbol handled on its own (multiplication, negation, size).    *)
EXTENDS Parameters, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
SetOf(xs) == {xs[i] : i \in 1..Len(xs)}
Bad(e) ==
  IF ~e.ok THEN IF e.op = "lambdify" /\ e.arr THEN {"lambdify:array-of-symbols"} ELSE {e.op \o ":refused"}
  ELSE CASE e.op = "free" -> IF {<<x.s, x.d, x.c>> : x \in SetOf(e.got)} = FreeOf(e.occ)
                                /\ \A x \in SetOf(e.got) : x.m = 1000 THEN {} ELSE {"free"}
         [] e.op = "lambdify" ->
              LET want == AllGiven(e.occ, e.syms, e.vals)
              IN  (IF e.skel # e.rskel THEN {"lambdify:shape"} ELSE {})
                  \cup (IF e.rocc = want THEN {} ELSE IF e.arr THEN {"lambdify:array-of-symbols"} ELSE {"lambdify:values"})
                  \cup (IF e.occ2 = e.occ /\ e.skel2 = e.skel THEN {} ELSE {"lambdify:operand"})
                  \cup (IF {<<x.s, x.d, x.c>> : x \in SetOf(e.rfree)} = FreeOf(e.rocc) THEN {} ELSE {"lambdify:free"})
         [] e.op = "map" ->
              (IF e.mul = [e.x EXCEPT !.m = @ * e.k] /\ e.rmul = e.mul THEN {} ELSE {"map:times"})
              \cup (IF e.neg = [e.x EXCEPT !.m = 0 - @] THEN {} ELSE {"map:minus"})
              \cup (IF e.un = [e.x EXCEPT !.m = 1000] THEN {} ELSE {"map:unscaled"})
              \cup (IF e.size = e.x.d * e.x.c THEN {} ELSE {"map:size"})
              \cup (IF e.same = (e.x = e.y) /\ (e.same => e.hash) THEN {} ELSE {"map:equality"})
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ \A b \in Bad(Cases[c].events[l]) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
