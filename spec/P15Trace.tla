------------------------------ MODULE P15Trace ------------------------------
(***************************************************************************)
(* A rewriter over its life: rules are added between uses.  What it answers *)
(* is decided by the rules it has at that moment.                           *)
(***************************************************************************)
EXTENDS Rewriting, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, rules
Resolve(r) == IF r.k = "named" THEN Builtin(r.name) ELSE r
ResolveAll(rs) == [i \in 1..Len(rs) |-> Resolve(rs[i])]
DefaultRules == [i \in 1..Len(Defaults) |-> Builtin(Defaults[i])]
Compare(o, x) ==
  IF ~WellTyped(o) THEN {"ill-typed"}
  ELSE (IF o.dom = x.dom /\ o.cod = x.cod THEN {} ELSE {"dom-cod"})
       \cup (IF RealBoxes(o) = RealBoxes(x) THEN {} ELSE {"boxes"})
       \cup (IF Wiring(o) = Wiring(x) THEN {} ELSE {"wiring"})
(* frequencies of the words in a collection of diagrams                      *)
Freq(ds, b, ignore) == FoldLeft(LAMBDA n, d : n + Cardinality({i \in 1..Len(d.layers) :
      LET y == d.layers[i].b IN y.k = "word" /\ y.dg = 0 /\ y.n = b.n /\ (ignore \/ y.c = b.c)}), 0, ds)
UnkD(e) == FoldLeft(LAMBDA acc, ly : ThenD(acc, Extend(BoxD(
              IF ly.b.k = "word" /\ Freq(e.ds, ly.b, e.ignore) < e.min THEN [ly.b EXCEPT !.n = e.unk] ELSE ly.b), ly.L, ly.R)),
              IdD(e.d.dom), e.d.layers)
Cups(d) == Cardinality({i \in 1..Len(d.layers) : d.layers[i].b.k = "cup"})
(* a state on one wire that is cupped to something can always be folded in   *)
OneWire(d) == {<<"w", d.layers[i].b.n>> : i \in {j \in 1..Len(d.layers) : d.layers[j].b.k \notin Structural
                                                 /\ d.layers[j].b.d = <<>> /\ Len(d.layers[j].b.c) = 1}}
RECURSIVE CupEnds(_, _, _)     \* for each cup, the names of the boxes whose wires it joins
CupEnds(d, i, st) ==
  IF i > Len(d.layers) THEN st.cups
  ELSE LET b == d.layers[i].b
           o == Len(d.layers[i].L)
           ins == SubSeq(st.scan, o + 1, o + Len(b.d))
           outs == CASE b.k = "swap" -> <<ins[2], ins[1]>>
                     [] OTHER -> [j \in 1..Len(b.c) |-> <<i, j>>]
       IN  CupEnds(d, i + 1, [scan |-> SubSeq(st.scan, 1, o) \o outs \o SubSeq(st.scan, o + Len(b.d) + 1, Len(st.scan)),
                              cups |-> IF b.k = "cup" THEN st.cups \cup {ins} ELSE st.cups])
LoneCup(d) == \E q \in CupEnds(d, 1, [scan |-> [i \in 1..Len(d.dom) |-> <<0, i>>], cups |-> {}]) :
   \E k \in 1..2 : q[k][1] > 0 /\ LET b == d.layers[q[k][1]].b
                                  IN  b.k \notin Structural /\ b.d = <<>> /\ Len(b.c) = 1
IsPregroup(d) == /\ d.dom = <<>>
                 /\ \E w \in 0..Len(d.layers) :
                      /\ \A i \in 1..w : d.layers[i].b.k = "word" /\ d.layers[i].R = <<>>
                      /\ \A i \in (w + 1)..Len(d.layers) : d.layers[i].b.k \in {"cup", "swap"}
(* words after swap removal                                                  *)
RECURSIVE MergeWords(_, _, _, _, _)
MergeWords(ws, left, i, prefix, out) ==     \* left[i]: wires word i keeps; full[i]: it had no wires to begin with
  IF i > Len(ws) THEN out
  ELSE LET nm == IF prefix = "" THEN ws[i].n ELSE prefix \o " " \o ws[i].n
       IN  IF Len(left[i]) > 0 \/ Len(ws[i].c) = 0 THEN MergeWords(ws, left, i + 1, "", Append(out, [n |-> nm, c |-> left[i]]))
           ELSE IF i < Len(ws) THEN MergeWords(ws, left, i + 1, nm, out)
           ELSE IF out = <<>> THEN <<[n |-> nm, c |-> <<>>]>>
           ELSE [out EXCEPT ![Len(out)] = [@ EXCEPT !.n = @ \o " " \o nm]]
NoSwap(e) ==
  LET u == Unswapped(e.d)
      own == Owner(e.d)
      inner == {i \in 1..Len(u.links) : own[u.links[i][1]] = own[u.links[i][2]]}
      gone == UNION {{u.links[i][1], u.links[i][2]} : i \in inner}
      ws == WordsOf(e.d)
      keepOf(w) == SelectSeq([i \in 1..Len(own) |-> i], LAMBDA i : own[i] = w /\ i \notin gone)
      left == [w \in 1..Len(ws) |-> [j \in 1..Len(keepOf(w)) |-> u.types[keepOf(w)[j]]]]
      keep == SelectSeq([i \in 1..Len(own) |-> i], LAMBDA i : i \notin gone)
      new(i) == Cardinality({j \in 1..Len(keep) : keep[j] <= i})
      want == MergeWords(ws, left, 1, "", <<>>)
      links == {{new(u.links[i][1]), new(u.links[i][2])} : i \in (1..Len(u.links)) \ inner}
      r == Unswapped(e.r)
  IN  IF ~WellTyped(e.r) THEN {"ill-typed"}
      ELSE (IF e.r.dom = e.d.dom /\ e.r.cod = e.d.cod THEN {} ELSE {"dom-cod"})
        \cup (IF IsPregroup(e.r) /\ \A i \in 1..Len(e.r.layers) : e.r.layers[i].b.k # "swap" THEN {} ELSE {"not-swap-free"})
        \cup (IF [i \in 1..Len(WordsOf(e.r)) |-> [n |-> WordsOf(e.r)[i].n, c |-> WordsOf(e.r)[i].c]] = want THEN {} ELSE {"words"})
        \cup (IF {{r.links[i][1], r.links[i][2]} : i \in 1..Len(r.links)} = links THEN {} ELSE {"links"})
Bad(e) ==
  CASE e.op \in {"new", "add"} -> IF e.ok THEN {} ELSE {"refused"}
    [] e.op = "badname" -> IF e.ok \/ e.err # "ValueError" THEN {"accepted-unknown-rule"} ELSE {}
    [] e.op = "apply" -> IF ~e.ok THEN {"refused"}
                         ELSE Compare(e.r, RewriteD(rules, e.d, e.low)) \cup (IF e.same THEN {} ELSE {"operand-changed"})
    [] e.op = "rule" -> IF ~e.ok THEN {"refused"}
                        ELSE LET r == Resolve(e.rule)
                             IN  IF ~Matches(r, e.b, e.low) THEN IF e.none THEN {} ELSE {"not-a-target"}
                                 ELSE IF e.none THEN {"missed"}
                                 ELSE Compare(e.r, Replace(r, e.b))
    [] e.op = "unknown" -> IF ~e.ok THEN {"refused"} ELSE Compare(e.r, UnkD(e))
    [] e.op = "unify" -> IF ~e.ok THEN {"refused"}
        ELSE IF e.d.cod = e.t THEN IF e.r = e.d THEN {} ELSE {"changed-without-need"}
        ELSE LET k == Len(e.d.layers) IN
             IF ~WellTyped(e.r) \/ Len(e.r.layers) # k + 1 THEN {"shape"}
             ELSE (IF SubSeq(e.r.layers, 1, k) = e.d.layers THEN {} ELSE {"sentence-changed"})
               \cup (IF e.r.dom = e.d.dom /\ e.r.cod = e.t /\ e.r.layers[k + 1].b.d = e.d.cod /\ e.r.layers[k + 1].b.c = e.t
                        /\ e.r.layers[k + 1].b.k = "box" THEN {} ELSE {"merge-box"})
    [] e.op = "nocups" -> IF ~e.ok THEN {"refused"}
        ELSE IF ~WellTyped(e.r) THEN {"ill-typed"}
        ELSE (IF e.r.dom = e.d.dom /\ e.r.cod = e.d.cod THEN {} ELSE {"dom-cod"})
          \cup (IF SameBag(Names(e.r), Names(e.d)) THEN {} ELSE {"boxes"})
          \cup (IF FlexLinks(e.r) = FlexLinks(e.d) THEN {} ELSE {"wiring"})
          \cup (IF Cups(e.r) <= Cups(e.d) THEN {} ELSE {"more-cups"})
          \cup (IF e.sentence /\ LoneCup(e.r) THEN {"cup-left"} ELSE {})
          \cup (IF e.same THEN {} ELSE {"operand-changed"})
    [] e.op = "noswaps" ->
        IF ~IsPregroup(e.d) THEN IF e.ok \/ e.err # "ValueError" THEN {"accepted-non-pregroup"} ELSE {}
        ELSE IF ~e.ok THEN {"refused"}
        ELSE NoSwap(e) \cup (IF e.same THEN {} ELSE {"operand-changed"})
    [] e.op = "list" -> IF ~e.ok THEN {"refused"} ELSE IF e.rs = e.one THEN {} ELSE {"list-differs"}
    [] OTHER -> {"unknown-operation"}
Init == c \in 1..Len(Cases) /\ l = 1 /\ rules = <<>>
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l] IN
           /\ \A b \in Bad(e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
           /\ rules' = CASE e.op = "new" -> IF e.default THEN DefaultRules ELSE ResolveAll(e.rules)
                         [] e.op = "add" -> rules \o ResolveAll(e.rules)
                         [] OTHER -> rules
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, rules>>
=============================================================================
