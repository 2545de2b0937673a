------------------------------ MODULE P02Trace ------------------------------
(***************************************************************************)
(* Normal forms.  A case records a diagram, the conversion applied to it,  *)
(* the answer and the answer of converting once more.                      *)
(***************************************************************************)
EXTENDS Diagrams, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l

(* Follow the wire at position j (0-based) leaving layer i, to the layer    *)
(* that consumes it; structural boxes other than the target stop it too.    *)
RECURSIVE Follow(_, _, _)
Follow(d, i, j) ==
  IF i >= Len(d.layers) THEN <<0, j>>
  ELSE LET ly == d.layers[i + 1]
           off == Len(ly.L)
           nd == Len(ly.b.d)
           nc == Len(ly.b.c)
       IN  IF off <= j /\ j < off + nd THEN <<i + 1, j>>
           ELSE Follow(d, i + 1, IF off <= j THEN j + nc - nd ELSE j)

(* A yankable snake: one leg of a cap runs straight into the opposite side  *)
(* of a cup, and the yanked wire has the same type at both ends.            *)
Snakes(d) ==
  {p \in (1..Len(d.layers)) \X {0, 1} :
     /\ d.layers[p[1]].b.k = "cap"
     /\ LET off == Len(d.layers[p[1]].L)
            f == Follow(d, p[1], off + p[2])
        IN  /\ f[1] # 0
            /\ d.layers[f[1]].b.k = "cup"
            /\ f[2] - Len(d.layers[f[1]].L) = 1 - p[2]
            /\ d.layers[p[1]].b.c[2 - p[2]] = d.layers[f[1]].b.d[p[2] + 1]}

(* Components: layers linked by wires.                                      *)
CompStep(s, ly, i) ==
  LET off == Len(ly.L)
      nd == Len(ly.b.d)
      nc == Len(ly.b.c)
      ins == SubSeq(s.scan, off + 1, off + nd)
      c0 == s.next
      s1 == [s EXCEPT !.scan = SubSeq(s.scan, 1, off) \o [k \in 1..nc |-> c0]
                               \o SubSeq(s.scan, off + nd + 1, Len(s.scan)),
                      !.ports = Append(@, <<<<"layer", i>>, c0>>),
                      !.next = c0 + 1]
  IN  MergeAll(s1, <<c0>> \o ins)
RECURSIVE CompRun(_, _, _)
CompRun(s, d, i) == IF i > Len(d.layers) THEN s
                    ELSE CompRun(CompStep(s, d.layers[i], i), d, i + 1)
Components(d) ==
  LET n == Len(d.dom)
      s == CompRun([scan |-> [i \in 1..n |-> i], ports |-> <<>>, next |-> n + 1], d, 1)
  IN  Cardinality({s.ports[i][2] : i \in DOMAIN s.ports})

Words(d) == SelectSeq([i \in 1..Len(d.layers) |-> d.layers[i].b],
                      LAMBDA b : b.k = "word")
IsSentence(d) ==   \* words, left to right, then cups and swaps (and caps)
  \E m \in 0..Len(d.layers) :
     /\ d.dom = <<>>
     /\ \A i \in 1..m : d.layers[i].b.k = "word" /\ d.layers[i].R = <<>>
     /\ \A i \in (m + 1)..Len(d.layers) : d.layers[i].b.k \in {"cup", "swap"}

RECURSIVE JoinNames(_)
JoinNames(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1].n
                 ELSE ws[1].n \o " " \o JoinNames(Tail(ws))

(* What swap removal prescribes.  Swaps exchange the types of the word      *)
(* slots below them; cups then join slots by position; a cup with both ends *)
(* on one word disappears together with its two slots, and a word left with *)
(* no slot lends its name to the next word (the last one to the previous).  *)
SlotState(d) == \* types per slot, scan of open slots, cups as slot pairs
  LET step(s, ly) ==
        LET o == Len(ly.L) IN
        CASE ly.b.k = "word" ->
               LET n == Len(s.ty)
                   m == Len(ly.b.c)
                   w == Len(s.words) + 1
               IN  [s EXCEPT !.ty = @ \o ly.b.c,
                             !.own = @ \o [i \in 1..m |-> w],
                             !.scan = @ \o [i \in 1..m |-> n + i],
                             !.words = Append(@, ly.b.n)]
          [] ly.b.k = "swap" ->
               [s EXCEPT !.ty = [@ EXCEPT ![s.scan[o + 1]] = s.ty[s.scan[o + 2]],
                                          ![s.scan[o + 2]] = s.ty[s.scan[o + 1]]]]
          [] OTHER -> [s EXCEPT !.cups = Append(@, <<s.scan[o + 1], s.scan[o + 2]>>),
                                !.scan = SubSeq(@, 1, o) \o SubSeq(@, o + 3, Len(@))]
  IN  FoldLeft(step, [ty |-> <<>>, own |-> <<>>, scan |-> <<>>, words |-> <<>>,
                      cups |-> <<>>], d.layers)
SwapFree(d) == \* [words |-> seq of <<name, type>>, links |-> ...]
  LET s == SlotState(d)
      det == {i \in DOMAIN s.cups : s.own[s.cups[i][1]] = s.own[s.cups[i][2]]}
      gone == UNION {{s.cups[i][1], s.cups[i][2]} : i \in det}
      kept(w) == SelectSeq([i \in 1..Len(s.own) |-> i],
                           LAMBDA i : s.own[i] = w /\ i \notin gone)
      orig(w) == \E i \in DOMAIN s.own : s.own[i] = w
      n == Len(s.words)
      \* a word with no slot left merges into the following word
      dead(w) == kept(w) = <<>> /\ orig(w)
      name == [w \in 1..n |->
                LET RECURSIVE nm(_)
                    nm(v) == IF v > 1 /\ dead(v - 1) THEN nm(v - 1) \o " " \o s.words[v]
                             ELSE s.words[v]
                IN  nm(w)]
      alive == SelectSeq([w \in 1..n |-> w], LAMBDA w : ~dead(w))
      trail == n > 0 /\ dead(n)
      names == [k \in 1..Len(alive) |->
                  IF k = Len(alive) /\ trail THEN name[alive[k]] \o " " \o name[n]
                  ELSE name[alive[k]]]
      ws == IF alive = <<>> THEN <<<<name[n], <<>>>>>>
            ELSE [k \in 1..Len(alive) |->
                    <<names[k], [j \in 1..Len(kept(alive[k])) |-> s.ty[kept(alive[k])[j]]]>>]
      idx(w) == CHOOSE k \in 1..Len(alive) : alive[k] = w
      pos(i) == CHOOSE j \in 1..Len(kept(s.own[i])) : kept(s.own[i])[j] = i
      port(i) == <<"word", names[idx(s.own[i])], 0, 0, <<>>, 1, "out", pos(i)>>
  IN  [words |-> ws,
       links |-> {{port(s.cups[i][1]), port(s.cups[i][2])} : i \in (DOMAIN s.cups) \ det}
            \cup {{port(s.scan[k]), <<"cod", k>>} : k \in 1..Len(s.scan)}]

BadNormal(e) ==
  LET d == e.d
      o == e.out
  IN  IF ~WellTyped(o) THEN {"ill-typed"}
      ELSE IF o.dom # d.dom \/ o.cod # d.cod THEN {"dom-cod"}
      ELSE (IF SameBag(RealBoxes(o), RealBoxes(d)) THEN {} ELSE {"boxes"})
        \cup (IF Wiring(o) = Wiring(d) THEN {} ELSE {"wiring"})
        \cup (IF Snakes(o) = {} THEN {} ELSE {"snake-left"})
        \cup (IF e.again = o THEN {} ELSE {"not-idempotent"})

BadSwaps(e) ==
  LET d == e.d
      o == e.out
  IN  IF ~WellTyped(o) THEN {"ill-typed"}
      ELSE (IF o.dom = d.dom /\ o.cod = d.cod THEN {} ELSE {"dom-cod"})
        \cup (IF JoinNames(Words(o)) = JoinNames(Words(d)) THEN {} ELSE {"words"})
        \cup (IF \E i \in 1..Len(o.layers) : o.layers[i].b.k = "swap" THEN {"swap-left"} ELSE {})
        \cup (IF IsSentence(o) THEN {} ELSE {"not-a-sentence"})
        \cup (LET x == SwapFree(d)
                  got == [i \in 1..Len(Words(o)) |-> <<Words(o)[i].n, Words(o)[i].c>>]
              IN  (IF got = x.words THEN {} ELSE {"word-types"})
                  \cup (IF Wiring(o).links = x.links THEN {} ELSE {"wiring"}))
        \cup (IF Len(d.layers) = Len(SelectSeq(d.layers, LAMBDA y : y.b.k # "swap"))
                 /\ e.detached = 0 /\ o # d THEN {"changed-without-swaps"} ELSE {})

Bad(e) ==
  CASE e.err = "Timeout" -> {"no-termination"}
    [] ~e.ok -> IF e.op \in {"remove_snakes", "remove_swaps"} THEN {"refused"}
                ELSE IF e.err = "NotImplementedError" /\ Components(e.d) > 1
                        /\ ~(e.op = "pregroup_normal_form" /\ IsSentence(e.d)) THEN {}
                ELSE {"refused"}
    [] e.op = "remove_swaps" -> BadSwaps(e)
    [] OTHER -> BadNormal(e)

Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l] IN
           \A b \in Bad(e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
