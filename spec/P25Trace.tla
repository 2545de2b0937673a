------------------------------ MODULE P25Trace ------------------------------
(* Recorded drawings.  A case is some diagrams; an event is the picture drawn  *)
(* of one of them, or of all of them as an equation.                           *)
EXTENDS Picture, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l

(* words of a pregroup sentence stand in a row, from left to right           *)
InARow(d, pic) ==
  LET P(j) == Box(pic, d.layers[j])
      words == { j \in 1..Len(d.layers) : d.layers[j].k = "box" }
  IN  \A i, j \in words : i < j => (P(i).b = P(j).b /\ P(i).t = P(j).t /\ P(i).r <= P(j).l)

(* a box, its conjugate, its dagger and its transpose lean to different sides *)
Leaning(y) == IF y.z # 0 THEN (IF y.dag THEN "bl" ELSE "tl") ELSE IF y.dag THEN "br" ELSE "tr"

Faults(d, pic, e) ==
  LET w == Wrong(d, pic, e.foliated)
      boxes == { y \in Rng(d.layers) : y.k = "box" }
  IN  IF w # {} THEN w
      ELSE (IF e.labels /\ ~Labels(d, pic) THEN {"labels"} ELSE {})
           \cup (IF e.style = "pregroup" /\ ~InARow(d, pic) THEN {"words-not-in-a-row"} ELSE {})
           \cup (IF e.lean /\ \E y \in boxes : Box(pic, y).lean # Leaning(y) THEN {"lean"} ELSE {})

(* frames: a frame is drawn as a box with one field for each component, in   *)
(* which the component is drawn                                              *)
Inner(p, q) == q.l < p.l /\ p.r < q.r /\ q.b < p.b /\ p.t < q.t
Outermost(P) == { p \in P : ~\E q \in P : Inner(p, q) }
LineIn(w, q) == q.l <= Lower(w[1], w[3]) /\ Upper(w[1], w[3]) <= q.r /\ q.b <= w[4] /\ w[2] <= q.t
Part(pic, P, in(_, _), yes) ==    \* the polygons P and what else is (not) in one of the fields
  LET ok(w) == IF yes.some THEN LineIn(w, yes.q) ELSE ~\E q \in in(pic, P) : LineIn(w, q)
  IN [polys |-> SelectSeq(pic.polys, LAMBDA p : p \in P),
      lines |-> SelectSeq(pic.lines, ok),
      dots |-> SelectSeq(pic.dots, LAMBDA q : ok(<<q[1], q[2], q[1], q[2]>>)),
      texts |-> SelectSeq(pic.texts, LAMBDA t : ok(<<t.x, t.y, t.x, t.y>>))]
FieldsIn(pic, P) == Outermost(Rng(pic.polys) \ P)
RECURSIVE Framed(_, _, _)
Framed(d, pic, e) ==
  LET top == Outermost(Rng(pic.polys))
      fields == FieldsIn(pic, top)
      flat == Part(pic, top, FieldsIn, [some |-> FALSE])
      boxes == { y \in Rng(d.layers) : y.k = "box" }
      w == Faults(d, flat, e)
      its(y) == { q \in fields : Inner(q, Box(flat, y)) }
      nth(S, k) == CHOOSE q \in S : Cardinality({ p \in S : p.l <= q.l }) = k
      sub(q) == Part(pic, { p \in Rng(pic.polys) : Inner(p, q) }, FieldsIn, [some |-> TRUE, q |-> q])
  IN  IF w # {} THEN w
      ELSE IF Cardinality(fields) # Cardinality({ <<y.n, i>> : y \in boxes, i \in 1..20 } \cap UNION { { <<y.n, i>> : i \in 1..Len(y.comps) } : y \in boxes })
              \/ \E y \in boxes : Cardinality(its(y)) # Len(y.comps) THEN {"fields"}
      ELSE IF \E p, q \in fields : p # q /\ Clash(p, q) THEN {"fields-overlap"}
      ELSE UNION UNION { { Framed(y.comps[i], sub(nth(its(y), i)), e) : i \in 1..Len(y.comps) } : y \in boxes }

Drawn(x, e) == IF ~e.ok THEN {"refused"} ELSE IF e.frames THEN Framed(x.ds[e.of], e.pic, e) ELSE Faults(x.ds[e.of], e.pic, e)

(* an equation: the parts between the symbols show the terms                 *)
Between(pic, lo, hi) ==
  LET in(a, b) == lo < a /\ b < hi
  IN  [polys |-> SelectSeq(pic.polys, LAMBDA p : in(p.l, p.r)),
       lines |-> SelectSeq(pic.lines, LAMBDA w : in(Lower(w[1], w[3]), Upper(w[1], w[3]))),
       dots |-> SelectSeq(pic.dots, LAMBDA q : in(q[1], q[1])),
       texts |-> SelectSeq(pic.texts, LAMBDA t : in(t.x, t.x))]
Equated(x, e) ==
  IF ~e.ok THEN {"refused"}
  ELSE
    LET n == Len(x.ds)
        S == SelectSeq(e.pic.texts, LAMBDA t : t.s = e.symbol)
        m == Len(S)
    IN IF m # n - 1 THEN {"symbols"}
       ELSE IF \E i, j \in 1..m : i # j /\ S[i].x = S[j].x THEN {"symbols-overlap"}
       ELSE
         LET at(k) == CHOOSE v \in { S[i].x : i \in 1..m } : Cardinality({ i \in 1..m : S[i].x <= v }) = k
             part(k) == Between(e.pic, IF k = 1 THEN -1000000 ELSE at(k - 1), IF k = n THEN 1000000 ELSE at(k))
             ps == [k \in 1..n |-> part(k)]
             RECURSIVE Sum(_, _)
             Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
             all(f) == Sum(f, n)
         IN (IF all([k \in 1..n |-> Len(ps[k].polys) + Len(ps[k].lines) + Len(ps[k].dots) + Len(ps[k].texts)])
                # Len(e.pic.polys) + Len(e.pic.lines) + Len(e.pic.dots) + Len(e.pic.texts) - m THEN {"over-a-symbol"} ELSE {})
            \cup UNION { Faults(x.ds[k], ps[k], e) : k \in 1..n }

Bad(x, e) == IF e.op = "draw" THEN Drawn(x, e)
             ELSE IF e.op = "drawable" THEN (IF e.ok THEN {} ELSE {"refused"})
             ELSE Equated(x, e)
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
