------------------------------ MODULE P13Trace ------------------------------
(* A chart is filled span by span; then the answer of the real parser is     *)
(* compared with the chart.  Events: sentences with the answer.              *)
EXTENDS Bobcat, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, len, chart, murky
vars == <<c, l, len, chart, murky>>
G == Cases[c].grammar
P == Cases[c].params
Ev == Cases[c].events
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b) == Abs(a - b) <= 2
(* the items a returned tree stands for; the score is the score of the tree *)
RECURSIVE Items(_, _, _, _)
Items(S, t, i, j) ==
  LET k == SpanAt(S, i, j)
      sp == IF k = 0 THEN <<>> ELSE S.spans[k].scores
      mine(x) == CatEq(x.cat, t.cat) /\ x.rule = t.rule /\ Near(x.score, t.s)
  IN  CASE Len(t.ch) = 0 -> {x \in {Leaf(P, S.tags[i][m]) : m \in 1..Len(S.tags[i])} : i = j /\ t.w = S.words[i] /\ mine(x)}
        [] Len(t.ch) = 1 -> IF k = 0 THEN {}
                            ELSE LET below == Items(S, t.ch[1], i, j)
                                 IN  {x \in UNION {{ScoredUnary(P, sp, u, y) : u \in Change(G, y) \cup Raise(G, y)} : y \in below} : mine(x)}
        [] Len(t.ch) = 2 -> IF k = 0 \/ t.ch[1].n >= j - i + 1 THEN {}
                            ELSE LET m == i + t.ch[1].n
                                     ls == Items(S, t.ch[1], i, m - 1)
                                     rs == Items(S, t.ch[2], m, j)
                                 IN  {x \in UNION {{Scored(P, sp, b, x.score + y.score) : b \in Combine(G, x, y)} : x \in ls, y \in rs} : mine(x)}
RECURSIVE WordsOf(_)
WordsOf(t) == IF Len(t.ch) = 0 THEN <<t.w>> ELSE FoldLeft(LAMBDA acc, x : acc \o WordsOf(x), <<>>, t.ch)
(* the judgement on an answer *)
TreeBad(S, t) == UNION {IF WordsOf(t) = S.words THEN {} ELSE {"not-the-sentence"},
                        IF RootOK(P, t.cat) THEN {} ELSE {"root-category"},
                        IF WordsOf(t) = S.words /\ Items(S, t, 1, Len(S.tags)) = {} THEN {"not-licensed"} ELSE {}}
Judge(S, root) ==
  IF ~S.ok THEN {S.err}
  ELSE LET one == UNION {TreeBad(S, S.trees[k]) : k \in 1..Len(S.trees)}
           best(t) == \E x \in root : CatEq(x.cat, t.cat) /\ Near(x.score, t.s)
           limited == P.maxtrees < 1000
       IN  IF one # {} THEN one
           ELSE UNION {IF \A k \in 1..(Len(S.trees) - 1) : S.trees[k].s >= S.trees[k + 1].s THEN {} ELSE {"order"},
                       IF \A k, m \in 1..Len(S.trees) : CatEq(S.trees[k].cat, S.trees[m].cat) => k = m THEN {} ELSE {"category-twice"},
                       IF murky \/ limited THEN {}
                       ELSE IF root # {} /\ Len(S.trees) = 0 THEN {"missed"}
                       ELSE IF root = {} /\ Len(S.trees) > 0 THEN {"invented"}
                       ELSE IF \A x \in root : \E k \in 1..Len(S.trees) : CatEq(x.cat, S.trees[k].cat) THEN
                              IF \A k \in 1..Len(S.trees) : best(S.trees[k]) THEN {} ELSE {"not-the-best"}
                            ELSE {"category-missed"},
                       IF S.words = S.rwords \/ Len(S.trees) = 0 THEN {} ELSE {"words"}}
Spans(S, n) == {<<i, i + n - 1>> : i \in 1..(Len(S.tags) - n + 1)}
Init == c \in 1..Len(Cases) /\ l = 1 /\ len = 1 /\ chart = <<>> /\ murky = FALSE
Deeper == /\ l <= Len(Ev) /\ len <= Len(Ev[l].tags)
          /\ LET S == Ev[l]
                 full == [s \in Spans(S, len) |-> Fill(G, P, S, chart, s[1], s[2])]
             IN  /\ chart' = chart @@ [s \in Spans(S, len) |-> Cell(P, full[s])]
                 /\ murky' = (murky \/ (len < Len(S.tags) /\ \E s \in Spans(S, len) : Ambiguous(full[s])))
          /\ len' = len + 1 /\ UNCHANGED <<c, l>>
Answer == /\ l <= Len(Ev) /\ len > Len(Ev[l].tags)
          /\ \A b \in Judge(Ev[l], CellAt(chart, 1, Len(Ev[l].tags))) : PrintT("@@FAIL|" \o ToString(c) \o "|parse:" \o b \o "|event " \o ToString(l))
          /\ IF CellAt(chart, 1, Len(Ev[l].tags)) # {} THEN PrintT("@@STAT|parsed|" \o ToString(murky)) ELSE TRUE
          /\ l' = l + 1 /\ len' = 1 /\ chart' = <<>> /\ murky' = FALSE /\ UNCHANGED c
          /\ IF l = Len(Ev) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Deeper \/ Answer]_vars
=============================================================================
