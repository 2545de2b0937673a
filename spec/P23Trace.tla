------------------------------ MODULE P23Trace ------------------------------
(* Recorded text circuits.  A case is a text; an event is the circuit made of  *)
(* it with some options, given as its boxes with the wires they take and give; *)
(* the steps of Circuit are executed one by one on those wires.                *)
EXTENDS Discourse, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
Most(S) == CHOOSE k \in S : \A h \in S : h <= k

BagEq(a, b) == Len(a) = Len(b) /\ \A v \in Ran(a) \cup Ran(b) : Cardinality({k \in DOMAIN a : a[k] = v}) = Cardinality({k \in DOMAIN b : b[k] = v})
(* the box drawn for a nested component                                        *)
RECURSIVE Drawn(_, _)
Drawn(s, g) == /\ g.w = s.w /\ g.sfx = "" /\ g.dom = g.cod
               /\ BagEq(g.dom, Copies("n", s.nouns) \o s.args)
               /\ Len(g.comps) = Len(s.comps) /\ \A k \in DOMAIN s.comps : Drawn(s.comps[k], g.comps[k])

(* executing: wire of each entity, legs not yet taken, legs taken, boxes used  *)
Start == [wire |-> <<>>, pool |-> <<>>, leg |-> <<>>, used |-> {}, err |-> "", n |-> 0]
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Fits(s, p, ev) ==
  CASE p.a = "state" -> ev.k = "box" /\ ev.ins = <<>> /\ Len(ev.outs) = 1 /\ ev.g.w = p.w /\ ev.g.sfx = "" /\ ev.g.cod = <<"n">> /\ ev.g.comps = <<>>
    [] p.a = "split" -> ev.k = "spider" /\ ev.ins = <<s.wire[p.e]>> /\ Len(ev.outs) = p.n
    [] p.a = "merge" -> ev.k = "spider" /\ Ran(ev.ins) = {s.leg[<<p.e, m>>] : m \in 1..p.n} /\ Len(ev.ins) = p.n /\ Len(ev.outs) = 1
    [] OTHER -> /\ ev.k = "box" /\ Len(ev.ins) = Len(p.legs) /\ Len(ev.outs) = Len(p.legs)
                /\ \A q \in DOMAIN p.legs : IF p.legs[q] \in DOMAIN s.leg THEN ev.ins[q] = s.leg[p.legs[q]] ELSE ev.ins[q] \in s.pool[p.legs[q][1]]
                /\ Cardinality(Ran(ev.ins)) = Len(ev.ins)
Box(p, ev) == /\ ev.g.w = p.w /\ ev.g.sfx = p.sfx /\ ev.g.dom = ev.g.cod /\ \A k \in DOMAIN ev.g.dom : ev.g.dom[k] = "n"
              /\ Len(ev.g.comps) = Len(p.comps) /\ \A k \in DOMAIN p.comps : Drawn(p.comps[k], ev.g.comps[k])
Do(s, p, evs) ==
  LET fit == {k \in DOMAIN evs : k \notin s.used /\ Fits(s, p, evs[k])}
  IN  IF s.err # "" THEN s
      ELSE IF fit = {} THEN [s EXCEPT !.err = IF p.a = "op" THEN "wires" ELSE p.a]
      ELSE LET k == Least(fit)
               ev == evs[k]
               u == [s EXCEPT !.used = @ \cup {k}]
           IN  CASE p.a = "state" -> [u EXCEPT !.wire = Put(@, p.e, ev.outs[1]), !.pool = Put(@, p.e, {ev.outs[1]})]
                 [] p.a = "split" -> [u EXCEPT !.pool = Put(@, p.e, Ran(ev.outs))]
                 [] p.a = "merge" -> [u EXCEPT !.wire = Put(@, p.e, ev.outs[1])]
                 [] OTHER -> IF ~Box(p, ev) THEN [s EXCEPT !.err = "component"]
                             ELSE [u EXCEPT !.leg = [q \in DOMAIN @ \cup Ran(p.legs) |-> IF q \in Ran(p.legs) THEN ev.outs[CHOOSE h \in DOMAIN p.legs : p.legs[h] = q] ELSE @[q]]]
(* a sentence begins with every wire whole and ends with every wire whole      *)
Begin(s) == [s EXCEPT !.pool = [e \in DOMAIN s.wire |-> {s.wire[e]}], !.leg = <<>>]
End(s) == [s EXCEPT !.wire = [e \in DOMAIN s.wire |-> IF <<e, 1>> \in DOMAIN s.leg /\ <<e, 2>> \notin DOMAIN s.leg THEN s.leg[<<e, 1>>] ELSE s.wire[e]]]
RECURSIVE Exec(_, _, _)
Exec(s, steps, evs) == IF steps = <<>> THEN s ELSE Exec(Do(s, Head(steps), evs), Tail(steps), evs)
RECURSIVE Whole(_, _, _, _, _)
Whole(x, o, i, s, evs) ==      \* s.ents the entities so far
  IF i > Len(x.sents) THEN s
  ELSE LET q == Steps(x, o, i, s.ents)
           r == End(Exec(Begin(s.st), q.steps, evs))
       IN  Whole(x, o, i + 1, [st |-> r, ents |-> q.ents], evs)

Circ(x, e) ==
  LET r == Whole(x, e.o, 1, [st |-> Start, ents |-> <<>>], e.evs)
  IN  IF ~e.ok THEN {"refused"}
      ELSE IF r.st.err # "" THEN {r.st.err}
      ELSE UNION {IF r.st.used # DOMAIN e.evs THEN {"more-boxes"} ELSE {},
                  IF e.final # [k \in DOMAIN r.ents |-> r.st.wire[r.ents[k]]] THEN {"outputs"} ELSE {},
                  IF \E k \in DOMAIN e.outs : e.outs[k] # "n" THEN {"output-types"} ELSE {}}
NounPos == {"NOUN", "PROPN", "PRON"}
(* the word a span of the text stands for: its last proper noun, or else its   *)
(* last noun, or else its first word                                           *)
HeadOf(e, sp) == LET P == {q \in sp.a..sp.b : e.pos[sp.i + 1][q + 1] = "PROPN"}
                     N == {q \in sp.a..sp.b : e.pos[sp.i + 1][q + 1] \in NounPos}
                 IN  IF e.op = "spacy" THEN sp.a ELSE IF P # {} THEN Most(P) ELSE IF N # {} THEN Most(N) ELSE sp.a
Heads(e, cl) == [h \in DOMAIN e.pos |-> LET at == SelectSeq(cl, LAMBDA sp : sp.i + 1 = h) IN [k \in DOMAIN at |-> HeadOf(e, at[k])]]
Resolved(x, e) ==
  LET n == Len(e.spans)
      single == {<<h, j>> \in (DOMAIN e.pos) \X (0..30) : j < Len(e.pos[h]) /\ e.pos[h][j + 1] \in NounPos}
      given == {k \in DOMAIN e.corefs : k > n}
  IN  IF ~e.ok THEN {"refused"}
      ELSE UNION {IF e.toks # x.toks THEN {"tokens"} ELSE {},
                  IF ~e.clean THEN {"text"} ELSE {},
                  IF Len(e.corefs) < n \/ \E k \in 1..n : e.corefs[k] # Heads(e, e.spans[k]) THEN {"clusters"} ELSE {},
                  IF Cardinality(given) # Cardinality(single) \/ {Mentions(e.corefs[k]) : k \in given} # {{m} : m \in single}
                  THEN {"nouns-by-themselves"} ELSE {}}
Dict(x, e) == IF ~e.ok THEN {"refused"}
              ELSE LET key(p) == <<p[1][1] + 1, p[1][2]>>
                       val(p) == <<p[2][1] + 1, p[2][2]>>
                   IN  IF {key(e.pairs[k]) : k \in DOMAIN e.pairs} # Known(x) THEN {"mentions"}
                       ELSE IF \E k \in DOMAIN e.pairs : val(e.pairs[k]) # Entity(x, key(e.pairs[k])[1], key(e.pairs[k])[2]) THEN {"first-mention"} ELSE {}
Bad(x, e) == CASE e.op \in {"sandwich", "frames"} -> Circ(x, e) \cup (IF e.ok /\ ~e.cyc THEN {"cycles-option"} ELSE {})
               [] e.op = "rewrite" -> IF ~e.ok THEN {"refused"} ELSE IF e.out # Rewritten(e.o.rules, e.tree) THEN {"tree"} ELSE {}
               [] e.op = "unknown" -> IF e.ok THEN {"accepted"} ELSE IF e.err = "ValueError" THEN {} ELSE {"other-error"}
               [] e.op = "dict" -> Dict(x, e)
               [] OTHER -> Resolved(x, e)
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
