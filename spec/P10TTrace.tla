------------------------------ MODULE P10TTrace ------------------------------
(* Histories of a model of tensor diagrams.  A weight is the sequence of    *)
(* the entries of a symbol (even numbers); a box with a symbol has s = name  *)
(* and m = twice its factor.                                                 *)
EXTENDS Tensors, P10Machine, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, st
Put(b, s) == IF b.k # "box" \/ b.s = "" THEN b
             ELSE LET w == Weight(s, b.s)
                  IN  [b EXCEPT !.data = [i \in 1..Len(w) |-> <<(w[i] * b.m) \div 2, 0>>]]
Concrete(d, s) == [d EXCEPT !.layers = [i \in 1..Len(d.layers) |-> [d.layers[i] EXCEPT !.b = Put(d.layers[i].b, s)]]]
Good(s, d, out) == LET m == Value(Concrete(d.dia, s)) IN out.shape = d.dia.dom \o d.dia.cod /\ out.v = [i \in 1..Len(m.v) |-> m.v[i][1]]
Init == c \in 1..Len(Cases) /\ l = 1 /\ st = Empty
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  /\ \A b \in BadOp(st, Cases[c].ds, e, Good) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o b \o "|" \o Cases[c].cls \o " event " \o ToString(l))
               /\ st' = IF e.ok THEN After(st, e) ELSE st
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
