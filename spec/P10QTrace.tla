------------------------------ MODULE P10QTrace ------------------------------
(* Histories of a model of circuits.  Weights are in quarters; a rotation   *)
(* with a symbol has s = name and m = twice its factor.                      *)
EXTENDS Quantum, P10Machine, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, st
RECURSIVE Put(_, _)
Put(b, s) ==
  CASE b.k \in {"ctrl", "dag"} -> [b EXCEPT !.f = <<Put(b.f[1], s)>>]
    [] b.k = "rot" -> IF b.s = "" THEN b ELSE [b EXCEPT !.ph = ((Weight(s, b.s) * b.m) \div 2) % 8]
    [] OTHER -> b
Concrete(d, s) == [d EXCEPT !.layers = [i \in 1..Len(d.layers) |-> [d.layers[i] EXCEPT !.b = Put(d.layers[i].b, s)]]]
Weights(d, mixed) ==
  LET m == Value(d, mixed)
  IN  IF mixed THEN m ELSE Norm(Mat(m.r, m.c, 2 * m.k, [i \in 1..Len(m.v) |-> AMul(m.v[i], AConj(m.v[i]))]))
Total(m) == Norm(Mat(1, 1, m.k, <<FoldLeft(AAdd, A0, m.v)>>))
Ratio(n, tot, x, tol) ==   \* n: thousandths of ten, tot and x: 10^5
  LET t3 == tot \div 100
      w == (n * t3) \div 1000 - (x \div 10)
  IN  Abs(w) <= 12 + Abs(n) \div 800 + (tol * t3) \div 1000
Good(s, d, out) ==
  LET q == Concrete(d.dia, s)
      p == Weights(q, d.mixed)
      t == Fixed(Total(p).v[1], Total(p).k)[1]
      x(i) == Fixed(p.v[i], p.k)[1]
      tol == IF d.freq THEN 600 ELSE 0
  IN  IF Len(q.dom) + Len(q.cod) = 0 THEN Len(out) = 1 /\ Abs(out[1] * 10 - t) <= 12 + 10 * tol
      ELSE /\ Len(out) = Len(p.v)
           /\ IF t = 0 THEN d.nan \/ \A i \in 1..Len(out) : Abs(out[i]) <= 1
              ELSE IF t < (IF d.freq THEN 30000 ELSE 5000) THEN TRUE
              ELSE \A i \in 1..Len(out) : Ratio(out[i], t, x(i), tol)
Init == c \in 1..Len(Cases) /\ l = 1 /\ st = Empty
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  /\ \A b \in BadOp(st, Cases[c].ds, e, Good) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o b \o "|" \o Cases[c].cls \o " event " \o ToString(l))
               /\ st' = IF e.ok THEN After(st, e) ELSE st
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
