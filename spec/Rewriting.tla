------------------------------ MODULE Rewriting ------------------------------
(***************************************************************************)
(* Rewriting: what each rule puts in the place of the boxes it targets, and *)
(* what the diagram rewriters may do to a sentence.                        *)
(***************************************************************************)
EXTENDS Diagrams

AtN == <<"n", 0>>
AtS == <<"s", 0>>
LL(a) == <<a[1], a[2] - 1>>
RR(a) == <<a[1], a[2] + 1>>
TN == <<AtN>>
TS == <<AtS>>
Vp == <<RR(AtN), AtS>>                                \* n.r s
Over(a, b) == a \o TyL(b)                             \* a << b
Under(a, b) == TyR(a) \o b                            \* a >> b
Ph == "<PLACEHOLDER>"
PhD(t) == BoxD(MkBox("word", Ph, <<>>, t, 0))
Cap2(a, b) == BoxD(MkCap(<<a>>, <<b>>, FALSE))
Tens(ds) == FoldLeft(LAMBDA acc, x : TensorD(acc, x), IdD(<<>>), ds)
SpD(a, i, o) == BoxD(MkSpider(<<a>>, i, o))

(* ---- the documented templates -------------------------------------------*)
RelWords == <<"that", "which", "who", "whom", "whose">>
NounLoop == LET l == LL(AtN)
                ll == <<"n", -2>>
            IN  ThenD(Extend(ThenD(Cap2(l, ll), BoxD(MkSwap(<<l>>, <<ll>>))), <<>>, TN),
                      Extend(BoxD(MkCup(<<l>>, TN, FALSE)), <<ll>>, <<>>))
Simple(cod, words, t) == [k |-> "simple", cod |-> cod, words |-> words, anyword |-> Len(words) = 0, cs |-> FALSE, t |-> t]
Builtin(name) ==
  CASE name = "connector" -> Simple(Over(TS, TS), <<"and", "but", "however", "if", "that", "whether">>, Cap2(AtS, LL(AtS)))
    [] name = "determiner" -> Simple(Over(TN, TN), <<"a", "an", "the">>, Cap2(AtN, LL(AtN)))
    [] name = "postadverb" -> Simple(Under(Vp, Vp), <<>>,
          \* wires s.r n.r.r n.r s : the adverb acts on s, the noun wire passes through
          ThenD(PhD(Under(TS, TS)), Extend(Cap2(<<"n", 2>>, RR(AtN)), <<RR(AtS)>>, TS)))
    [] name = "preadverb" -> Simple(Over(Vp, Vp), <<>>,
          ThenD(Cap2(RR(AtN), AtN), Extend(PhD(Over(TS, TS)), <<RR(AtN)>>, TN)))
    [] name = "auxiliary" -> Simple(Over(Vp, Vp),
          <<"am", "are", "be", "been", "being", "is", "was", "were", "did", "do", "does", "'d", "had", "has", "have",
            "may", "might", "will">>,
          CapsD(Vp, TyL(Vp), FALSE))
    [] name = "prepositional_phrase" -> Simple(Under(Vp, Over(Vp, TN)), <<>>,
          ThenD(PhD(Under(TS, Over(TS, TN))), Extend(Cap2(<<"n", 2>>, RR(AtN)), <<RR(AtS)>>, <<AtS, LL(AtN)>>)))
    [] name = "object_rel_pronoun" -> Simple(<<RR(AtN), AtN, <<"n", -2>>, LL(AtS)>>, RelWords,
          ThenD(ThenD(Cap2(RR(AtN), AtN),
                      Tens(<<IdD(<<RR(AtN)>>), SpD(AtN, 1, 2), SpD(LL(AtS), 0, 1)>>)),
                Extend(NounLoop, <<RR(AtN), AtN>>, <<LL(AtS)>>)))
    [] name = "subject_rel_pronoun" -> Simple(<<RR(AtN), AtN, LL(AtS), AtN>>, RelWords,
          ThenD(ThenD(Cap2(RR(AtN), AtN), Extend(SpD(AtN, 1, 2), <<RR(AtN)>>, <<>>)),
                Extend(SpD(LL(AtS), 0, 1), <<RR(AtN), AtN>>, TN)))
    [] name = "coordination" -> [k |-> "coord", words |-> <<"and">>]
    [] name = "curry" -> [k |-> "curry"]
Defaults == <<"auxiliary", "connector", "determiner", "postadverb", "preadverb", "prepositional_phrase">>
Available == {Defaults[i] : i \in 1..Len(Defaults)} \cup
             {"coordination", "curry", "object_rel_pronoun", "subject_rel_pronoun"}

(* ---- matching -----------------------------------------------------------*)
In(x, s) == \E i \in 1..Len(s) : s[i] = x
(* low: the lower-case forms of the names that occur, given with the trace   *)
Thirds(c) == LET n == Len(c) \div 3 IN <<SubSeq(c, 1, n), SubSeq(c, n + 1, 2 * n), SubSeq(c, 2 * n + 1, 3 * n)>>
LeadR(c) == IF \A i \in 1..Len(c) : c[i][2] > 0 THEN Len(c)
            ELSE (CHOOSE i \in 1..Len(c) : c[i][2] <= 0 /\ \A j \in 1..(i - 1) : c[j][2] > 0) - 1
TailL(c) == IF \A i \in 1..Len(c) : c[i][2] < 0 THEN Len(c)
            ELSE Len(c) - (CHOOSE i \in 1..Len(c) : c[i][2] >= 0 /\ \A j \in (i + 1)..Len(c) : c[j][2] < 0)
Matches(r, b, low) ==
  CASE r.k = "simple" -> /\ b.c = r.cod /\ b.k # "frame"
                         /\ (r.anyword \/ IF r.cs THEN In(b.n, r.words)
                                          ELSE \E i \in 1..Len(r.words) : low[r.words[i]] = low[b.n])
    [] r.k = "coord" -> /\ In(b.n, r.words) /\ Len(b.c) > 0 /\ Len(b.c) % 3 = 0 /\ b.k # "frame"
                        /\ LET t == Thirds(b.c) IN TyR(t[3]) = t[2] /\ TyL(t[1]) = t[2]
    [] r.k = "curry" -> Len(b.c) > 0 /\ (b.c[1][2] # 0 \/ b.c[Len(b.c)][2] # 0) /\ b.k # "frame"
    [] r.k = "collapse" -> Len(b.d) > 0 /\ b.k # "frame"
    [] r.k = "unk" -> b.k = "word" /\ ~(\E i \in 1..Len(r.vocab) :
                          \/ r.vocab[i].n = b.n /\ r.vocab[i].any
                          \/ r.vocab[i].n = b.n /\ r.vocab[i].c = b.c)
(* ---- replacement --------------------------------------------------------*)
Fill(t, name) == [t EXCEPT !.layers = [i \in 1..Len(t.layers) |->
                    IF t.layers[i].b.n = Ph THEN [t.layers[i] EXCEPT !.b = [@ EXCEPT !.n = name, !.k = "word"]]
                    ELSE t.layers[i]]]
(* pair up two parallel bundles of wires: swaps bringing wire i of the second *)
(* next to wire i of the first, then merge each pair                          *)
RECURSIVE Lift(_, _, _)
Lift(d, from, to) == IF from = to THEN d
   ELSE Lift(ThenD(d, [dom |-> d.cod,
                       cod |-> [d.cod EXCEPT ![from] = d.cod[from - 1], ![from - 1] = d.cod[from]],
                       layers |-> <<SwapAt(d.cod, from - 1)>>]), from - 1, to)
RECURSIVE MergeBundles(_, _, _)
MergeBundles(d, off, m) ==   \* wires off+1..off+m and off+m+1..off+2m
  IF m = 0 THEN d
  ELSE LET d1 == Lift(d, off + m + 1, off + 2)
           d2 == ThenAt(d1, SpD(d1.cod[off + 1], 2, 1), off)
       IN  MergeBundles(d2, off + 1, m - 1)
Replace(r, b) ==
  CASE r.k = "simple" -> Fill(r.t, b.n)
    [] r.k = "coord" -> LET t == Thirds(b.c)
                        IN  MergeBundles(TensorD(CapsD(t[1], t[2], FALSE), CapsD(t[2], t[3], FALSE)),
                                         Len(t[1]), Len(t[2]))
    [] r.k = "curry" -> LET i == LeadR(b.c)
                            j == IF i = Len(b.c) THEN 0 ELSE TailL(b.c)
                            lf == SubSeq(b.c, 1, i)
                            rt == SubSeq(b.c, Len(b.c) - j + 1, Len(b.c))
                            nb == BoxD(MkBox("box", b.n, TyL(lf) \o b.d \o TyR(rt), SubSeq(b.c, i + 1, Len(b.c) - j), 0))
                            c1 == IF i > 0 THEN CurryD(nb, i, FALSE) ELSE nb
                        IN  IF j > 0 THEN CurryD(c1, j, TRUE) ELSE c1
    [] r.k = "collapse" -> IF r.left
            THEN LET nb == BoxD(MkBox("box", b.n, <<>>, TyR(b.d) \o b.c, 0))
                 IN  ThenD(Extend(nb, b.d, <<>>), Extend(CupsD(b.d, TyR(b.d), FALSE), <<>>, b.c))
            ELSE LET nb == BoxD(MkBox("box", b.n, <<>>, b.c \o TyL(b.d), 0))
                 IN  ThenD(Extend(nb, <<>>, b.d), Extend(CupsD(TyL(b.d), b.d, FALSE), b.c, <<>>))
    [] r.k = "unk" -> BoxD([b EXCEPT !.n = r.unk])
(* the first rule that matches decides                                       *)
RECURSIVE RewriteBox(_, _, _)
RewriteBox(rules, b, low) ==
  IF b.k \in Structural THEN BoxD(b)
  ELSE IF b.dg = 1 THEN DagD(RewriteBox(rules, BoxDag(b), low))
  ELSE IF b.z # 0 THEN RotD(RewriteBox(rules, BoxRot(b, -b.z), low), b.z)
  ELSE LET hit == {i \in 1..Len(rules) : Matches(rules[i], b, low)}
       IN  IF hit = {} THEN BoxD(b) ELSE Replace(rules[CHOOSE i \in hit : \A j \in hit : i <= j], b)
RewriteD(rules, d, low) ==
  FoldLeft(LAMBDA acc, ly : LET x == RewriteBox(rules, ly.b, low)
                            IN  ThenD(acc, Extend(x, ly.L, ly.R)),
           IdD(d.dom), d.layers)

(* ---- sentences without regard to how boxes are turned ---------------------*)
(* A box turned around a wire (its transpose) is the same box: its ports are   *)
(* named after those of the upright box.                                       *)
Flip(b, side, i) ==
  LET up == b.dg = 0
      odd == b.z % 2 = 1
      baseside == IF up THEN side ELSE IF side = "in" THEN "out" ELSE "in"
      n == IF side = "in" THEN Len(b.d) ELSE Len(b.c)
  IN  <<b.n, (b.dg + b.z) % 2, baseside, IF odd THEN n + 1 - i ELSE i>>
FlexPorts(d) ==
  LET s == WireFinal(d)
      lab(p) == IF p[1] \in {"dom", "cod", "v"} THEN p
                ELSE LET b == [d |-> <<>>, c |-> <<>>, dg |-> p[4], z |-> p[3], n |-> p[2]]
                         src == CHOOSE x \in {d.layers[i].b : i \in 1..Len(d.layers)} :
                                   x.n = p[2] /\ x.z = p[3] /\ x.dg = p[4] /\ x.k = p[1]
                     IN  Flip(src, p[7], p[8])
  IN  [i \in DOMAIN s |-> <<lab(s[i][1]), s[i][2]>>]
FlexLinks(d) == LET full == Classes(FlexPorts(d))
                    real(cl) == {p \in cl : p[1] # "v"}
                IN  {real(cl) : cl \in full} \ {{}}
Names(d) == [i \in 1..Len(RealBoxes(d)) |-> RealBoxes(d)[i].n]

(* ---- swap removal by exchanging the types of the words --------------------*)
WordsOf(d) == SelectSeq([i \in 1..Len(d.layers) |-> d.layers[i].b], LAMBDA b : b.k = "word")
Wires(d) == FlattenSeq([i \in 1..Len(WordsOf(d)) |-> WordsOf(d)[i].c])
Owner(d) == FlattenSeq([i \in 1..Len(WordsOf(d)) |-> [j \in 1..Len(WordsOf(d)[i].c) |-> i]])
DelPair(s, o) == SubSeq(s, 1, o) \o SubSeq(s, o + 3, Len(s))
RECURSIVE Fold2(_, _, _)
Fold2(d, i, st) ==    \* st: types, scan, links
  IF i > Len(d.layers) THEN st
  ELSE LET b == d.layers[i].b
           o == Len(d.layers[i].L)
       IN  Fold2(d, i + 1,
             CASE b.k = "swap" -> [st EXCEPT !.types = [@ EXCEPT ![st.scan[o + 1]] = st.types[st.scan[o + 2]],
                                                                 ![st.scan[o + 2]] = st.types[st.scan[o + 1]]]]
               [] b.k = "cup" -> [st EXCEPT !.links = Append(@, <<st.scan[o + 1], st.scan[o + 2]>>),
                                            !.scan = DelPair(@, o)]
               [] OTHER -> st)
Unswapped(d) == Fold2(d, 1, [types |-> Wires(d), scan |-> [i \in 1..Len(Wires(d)) |-> i], links |-> <<>>])
=============================================================================
