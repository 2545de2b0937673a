------------------------------ MODULE P11TTrace ------------------------------
(* Tensor networks produced by the tensor ansätze, with integer parameters. *)
EXTENDS AnsatzT, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Bad(case, e) ==
  LET cfg == case.cfg
      ob == case.ob
      used == {e.d.layers[i].b.cls : i \in {j \in 1..Len(e.d.layers) : e.d.layers[j].b.k = "box"}}
      x(i) == case.classes[i]
      ms == [i \in used |-> ClassMat(ob, cfg, x(i))]
      want == TensorValue(ob, e.d, ms)
      dn == Dims(ob, e.d.dom)
      cn == Dims(ob, e.d.cod)
      got == {e.syms[i] : i \in 1..Len(e.syms)}
      names(i) == {x(i).syms[k].n : k \in 1..Len(x(i).syms)}
  IN  IF ~e.ok THEN {"refused"}
      ELSE (IF e.dn = dn /\ e.cn = cn THEN {} ELSE {"size"})
        \cup (IF got = UNION {names(i) : i \in used} THEN {} ELSE {"symbols"})
        \cup (IF e.maxorder <= cfg.order THEN {} ELSE {"order"})
        \cup (IF e.v = want.v THEN {} ELSE {"value"})
(* the parameters of every class: one per piece, of the piece's size and flow, *)
(* shared with no other class                                                  *)
BadClasses(case) ==
  LET cfg == case.cfg
      ob == case.ob
      x(i) == case.classes[i]
      pts(i) == PieceTypes(cfg, x(i))
      names(i) == {x(i).syms[k].n : k \in 1..Len(x(i).syms)}
      K == 1..Len(case.classes)
  IN  UNION {(IF Len(x(i).syms) = Len(pts(i)) THEN
                 (IF \A k \in 1..Len(pts(i)) :
                        x(i).syms[k].d = Flow(ob, pts(i)[k])[1] /\ x(i).syms[k].c = Flow(ob, pts(i)[k])[2]
                  THEN {} ELSE {<<"flow", x(i).name>>})
              ELSE {<<"pieces", x(i).name>>})
             \cup (IF Cardinality(names(i)) = Len(x(i).syms) THEN {} ELSE {<<"piece-twice", x(i).name>>}) : i \in K}
      \cup {<<IF x(p[1]).name # x(p[2]).name THEN "shared-by-names"
               ELSE IF Small(cfg, x(p[1])) /\ Small(cfg, x(p[2])) THEN "shared-by-types"
               ELSE "shared-by-split-words",
               x(p[1]).name \o "/" \o x(p[2]).name>> :
             p \in {q \in K \X K : q[1] < q[2] /\ (names(q[1]) \cap names(q[2])) # {}}}
Init == c \in 1..Len(Cases) /\ l = 0
Next == /\ l <= Len(Cases[c].events)
        /\ IF l = 0
           THEN \A b \in BadClasses(Cases[c]) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o Cases[c].cfg.a \o ":" \o b[1] \o "|" \o b[2])
           ELSE LET e == Cases[c].events[l]
                IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o Cases[c].cfg.a \o ":" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
