------------------------------ MODULE P11Trace ------------------------------
(* Circuits produced by the circuit ansätze for whole grammar diagrams,     *)
(* evaluated by the code with every parameter at a multiple of a quarter    *)
(* turn, against the value the specification derives box by box.            *)
EXTENDS Ansatz, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Join(t) == IF t = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o "@" \o x, t[1], Tail(t))
Sym(x, i) == x.name \o "_" \o Join(x.dt) \o "_" \o Join(x.ct) \o "_" \o ToString(i)
Syms(cfg, x) == {Sym(x, i - 1) : i \in 1..NParams(cfg, Width(x))}
Qs(n) == [i \in 1..n |-> "q"]
Bad(case, e) ==
  LET cfg == case.cfg
      used == {e.d.layers[i].b.cls : i \in {j \in 1..Len(e.d.layers) : e.d.layers[j].b.k = "box"}}
      mixed == \E i \in used : ClassMixed(cfg, case.classes[i])
      ms == [i \in used |-> ClassMat(cfg, case.classes[i], mixed)]
      want == CircuitValue(e.d, ms, mixed)
      dn == Sum(e.d.dom)
      cn == Sum(e.d.cod)
      got == {e.syms[i] : i \in 1..Len(e.syms)}
  IN  IF ~e.ok THEN {"refused"}
      ELSE (IF e.dn = dn /\ e.cn = cn THEN {} ELSE {"size"})
        \cup (IF got = UNION {Syms(cfg, case.classes[i]) : i \in used} THEN {} ELSE {"symbols"})
        \cup (IF Cardinality(got) = FoldLeft(LAMBDA a, i : a + NParams(cfg, Width(case.classes[i])), 0, SetToSeq(used))
              THEN {} ELSE {"shared"})
        \cup (IF dn # e.dn \/ cn # e.cn THEN {}
              ELSE IF mixed THEN IF DoubledClose(want, Qs(dn), Qs(cn), e.v) THEN {} ELSE {"value"}
              ELSE IF MatClose(want, e.v) THEN {} ELSE {"value"})
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o Cases[c].cfg.a \o ":" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
