-------------------------------- MODULE CCG --------------------------------
(***************************************************************************)
(* Combinatory categorial grammar and the wiring of its derivations.       *)
(*                                                                         *)
(* A category is [k |-> "a", n |-> name], [k |-> "e"] (empty) or           *)
(* [k |-> "/" or "\\", r |-> result, a |-> argument].                      *)
(* A derivation is [rule, cat, ch (sequence of derivations), w (word)].    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
LOCAL Rev(s) == Reverse(s)
Atom(n) == [k |-> "a", n |-> n]
Empty == [k |-> "e"]
Sl(d, r, a) == [k |-> d, r |-> r, a |-> a]
Over(r, a) == Sl("/", r, a)
Under(r, a) == Sl("\\", r, a)      \* r \ a : takes a on the left
IsC(c) == c.k \in {"/", "\\"}
Punc == Atom("punc")
Conj == Atom("conj")
Glue(c) == c = Punc \/ c = Conj

(* The pregroup type of a category: X/Y is X Y^l and X\Y is Y^r X.          *)
AdjL(t) == [i \in 1..Len(t) |-> <<t[Len(t) + 1 - i][1], t[Len(t) + 1 - i][2] - 1>>]
AdjR(t) == [i \in 1..Len(t) |-> <<t[Len(t) + 1 - i][1], t[Len(t) + 1 - i][2] + 1>>]
RECURSIVE Flat(_)
Flat(c) == CASE c.k = "a" -> <<<<c.n, 0>>>>
             [] c.k = "e" -> <<>>
             [] c.k = "/" -> Flat(c.r) \o AdjL(Flat(c.a))
             [] c.k = "\\" -> AdjR(Flat(c.a)) \o Flat(c.r)

(* the n outermost arguments of a category, and what remains                *)
RECURSIVE Strip(_, _)
Strip(c, n) == IF n = 0 THEN c ELSE Strip(c.r, n - 1)
RECURSIVE HasArgs(_, _)
HasArgs(c, n) == n = 0 \/ (IsC(c) /\ HasArgs(c.r, n - 1))
RECURSIVE Args(_, _)      \* outermost first: <<direction, argument>>
Args(c, n) == IF n = 0 THEN <<>> ELSE <<<<c.k, c.a>>>> \o Args(c.r, n - 1)
RECURSIVE PutArgs(_, _)   \* inverse of Args
PutArgs(c, as) == IF as = <<>> THEN c ELSE Sl(as[1][1], PutArgs(c, Tail(as)), as[1][2])
(* the directions of the n outermost arguments, innermost first             *)
Dirs(c, n) == LET as == Args(c, n) IN [i \in 1..n |-> as[n + 1 - i][1]]
MaxArgs == 4

(* ---- the combinators ---------------------------------------------------- *)
Binary == {"FA", "BA", "FC", "BC", "FX", "BX", "GFC", "GBC", "GFX", "GBX", "LP", "RP", "CONJ"}
(* composition of a function f: X|Y into g, under n arguments of g          *)
CompDir(rule) == IF rule \in {"FC", "FX", "GFC", "GFX"} THEN "F" ELSE "B"
FunOf(rule, dom) == IF CompDir(rule) = "F" THEN dom[1] ELSE dom[2]
ArgOf(rule, dom) == IF CompDir(rule) = "F" THEN dom[2] ELSE dom[1]
FunSlash(rule) == IF CompDir(rule) = "F" THEN "/" ELSE "\\"
DirsOk(rule, ds) ==
  LET s == FunSlash(rule)
      o == IF s = "/" THEN "\\" ELSE "/"
  IN  CASE rule \in {"FC", "BC"} -> ds = <<s>>
        [] rule \in {"FX", "BX"} -> ds = <<o>>
        [] rule \in {"GFC", "GBC"} -> Len(ds) >= 2 /\ \A i \in 1..Len(ds) : ds[i] = s
        [] rule \in {"GFX", "GBX"} -> Len(ds) >= 2 /\ ds[1] = o
IsComp(rule) == rule \in {"FC", "BC", "FX", "BX", "GFC", "GBC", "GFX", "GBX"}
(* the depths at which f composes into g                                    *)
Depths(rule, dom) ==
  LET f == FunOf(rule, dom)
      g == ArgOf(rule, dom)
  IN  IF ~IsC(f) THEN {} ELSE
      IF f.k # FunSlash(rule) THEN {} ELSE
      {n \in 1..MaxArgs : HasArgs(g, n) /\ Strip(g, n) = f.a /\ DirsOk(rule, Dirs(g, n))}
CompOut(rule, dom, n) == PutArgs(FunOf(rule, dom).r, Args(ArgOf(rule, dom), n))
(* the categories a rule derives from dom (none: it does not apply)         *)
Outs(rule, dom) ==
  CASE rule = "FA" -> IF IsC(dom[1]) /\ dom[1].k = "/" /\ dom[1].a = dom[2] THEN {dom[1].r} ELSE {}
    [] rule = "BA" -> IF IsC(dom[2]) /\ dom[2].k = "\\" /\ dom[2].a = dom[1] THEN {dom[2].r} ELSE {}
    [] IsComp(rule) -> {CompOut(rule, dom, n) : n \in Depths(rule, dom)}
    [] rule = "LP" -> IF dom[1] = Punc /\ dom[2] # Punc THEN {dom[2]} ELSE {}
    [] rule = "RP" -> IF dom[2] = Punc /\ dom[1] # Punc THEN {dom[1]} ELSE {}
    [] rule = "CONJ" -> (IF Glue(dom[1]) /\ ~Glue(dom[2]) THEN {Under(dom[2], dom[2])} ELSE {})
                        \cup (IF ~Glue(dom[1]) /\ Glue(dom[2]) THEN {Over(dom[1], dom[1])} ELSE {})
    [] OTHER -> {}
Fits(rule, dom, cod) ==
  CASE rule = "FTR" -> IsC(cod) /\ cod.k = "/" /\ cod.a = Under(cod.r, dom[1])
    [] rule = "BTR" -> IsC(cod) /\ cod.k = "\\" /\ cod.a = Over(cod.r, dom[1])
    [] rule = "U" -> Len(dom) = 1
    [] rule = "L" -> dom = <<>>
    [] OTHER -> Len(dom) = 2 /\ cod \in Outs(rule, dom)

(* ---- type resolution ------------------------------------------------------*)
(* A unary rule re-types its phrase; the change is pushed down to the words. *)
(* Downs(t, out): the ways in which the children of t can be re-typed for t *)
(* to have category out: [cs |-> categories, n |-> depth of composition].   *)
(* The depth is that of the derivation unless the phrase was re-typed.      *)
ChCats(t) == [i \in 1..Len(t.ch) |-> t.ch[i].cat]
Pair(rule, f, g) == IF CompDir(rule) = "F" THEN <<f, g>> ELSE <<g, f>>
Way(cs, n) == [cs |-> cs, n |-> n]
CompWays(t, out) ==
  LET cs == ChCats(t)
      f == FunOf(t.rule, cs)
      isTR == t.ch[1].rule = "FTR" /\ t.rule = "FC"
      fitting == {n \in Depths(t.rule, cs) : CompOut(t.rule, cs, n) = t.cat}
      ns == IF fitting = {} THEN {} ELSE IF out = t.cat THEN fitting
            ELSE {n \in 1..MaxArgs : HasArgs(out, n) /\ DirsOk(t.rule, Dirs(out, n))}
  IN  {LET x == Strip(out, n)
           \* a type-raised function T/(T\X) raises over its new result
           y == IF isTR THEN Under(x, f.a.a) ELSE f.a
       IN  Way(Pair(t.rule, Sl(FunSlash(t.rule), x, y), PutArgs(y, Args(out, n))), n) : n \in ns}
Downs(t, out) ==
  LET cs == ChCats(t) IN
  CASE t.rule = "FA" -> {Way(<<Over(out, cs[2]), cs[2]>>, 0)}
    [] t.rule = "BA" -> {Way(<<cs[1], Under(out, cs[1])>>, 0)}
    [] IsComp(t.rule) -> CompWays(t, out)
    [] t.rule = "LP" -> {Way(<<cs[1], out>>, 0)}
    [] t.rule = "RP" -> {Way(<<out, cs[2]>>, 0)}
    [] t.rule = "CONJ" -> IF Glue(cs[1]) THEN {Way(<<Over(out, cs[2]), cs[2]>>, 0)}
                          ELSE IF Glue(cs[2]) THEN {Way(<<cs[1], Under(out, cs[1])>>, 0)} ELSE {}
    [] t.rule = "FTR" -> IF IsC(out) /\ out.k = "/" /\ IsC(out.a) /\ out.a.k = "\\" /\ out.a.r = out.r THEN {Way(<<out.a.a>>, 0)} ELSE {}
    [] t.rule = "BTR" -> IF IsC(out) /\ out.k = "\\" /\ IsC(out.a) /\ out.a.k = "/" /\ out.a.r = out.r THEN {Way(<<out.a.a>>, 0)} ELSE {}
    [] OTHER -> {}
Flips(t, out) == t.rule = "U" /\ IsC(out) /\ IsC(t.ch[1].cat) /\ out.k # t.ch[1].cat.k
(* a phrase whose pregroup type is that of out with its two halves exchanged *)
FlipCat(out) == IF out.k = "/" THEN Under(out.r, Over(Empty, Over(Empty, out.a)))
                ELSE Over(out.r, Under(Empty, Under(Empty, out.a)))

(* ---- wiring ---------------------------------------------------------------*)
(* A phrase is [ports, links, words]: its boundary as a sequence of tokens, *)
(* the pairs of tokens joined so far, its words with their types.  A token  *)
(* is <<position, i>>: wire i of the word (or cap) at that place.           *)
Ph(p, l, w) == [ports |-> p, links |-> l, words |-> w]
Cups(a, b) == {{a[i], b[Len(b) + 1 - i]} : i \in 1..Len(a)}
Sub(s, i, n) == SubSeq(s, i, i + n - 1)
SumF(ts) == FoldLeft(LAMBDA a, t : a + Len(Flat(t)), 0, ts)
(* width of the arguments of cat on its left / right among its n outermost  *)
SideW(c, n, dir) == LET as == Args(c, n) IN
   FoldLeft(LAMBDA a, x : IF x[1] = dir THEN a + Len(Flat(x[2])) ELSE a, 0, as)
(* how a rule joins the phrases of its children, re-typed to ds             *)
Join(t, out, path, way, ps) ==
  LET ds == way.cs
      words == IF Len(ds) = 1 THEN ps[1].words ELSE ps[1].words \o ps[2].words
      links == IF Len(ds) = 1 THEN ps[1].links ELSE ps[1].links \cup ps[2].links
  IN
  IF t.rule \in {"FTR", "BTR"} THEN
     LET tt == Flat(out.r)
         m == Len(tt)
         c1 == [i \in 1..m |-> <<Append(path, 0), i>>]
         c2 == [i \in 1..m |-> <<Append(path, 0), m + i>>]
     IN  Ph(IF t.rule = "FTR" THEN c1 \o c2 \o ps[1].ports ELSE ps[1].ports \o c1 \o c2,
            links \cup Cups(c1, c2), words)
  ELSE LET a == ps[1].ports
           b == ps[2].ports
           rule == IF t.rule = "CONJ" THEN IF Glue(t.ch[1].cat) THEN "FA" ELSE "BA" ELSE t.rule
       IN
  CASE rule = "FA" -> LET k == Len(Flat(ds[2])) IN
          Ph(SubSeq(a, 1, Len(a) - k), links \cup Cups(SubSeq(a, Len(a) - k + 1, Len(a)), b), words)
    [] rule = "BA" -> LET k == Len(Flat(ds[1])) IN
          Ph(SubSeq(b, k + 1, Len(b)), links \cup Cups(a, SubSeq(b, 1, k)), words)
    [] rule = "LP" -> Ph(b, links, words)
    [] rule = "RP" -> Ph(a, links, words)
    [] IsComp(rule) ->
          LET n == way.n
              g == ArgOf(rule, ds)
              f == FunOf(rule, ds)
              gp == IF CompDir(rule) = "F" THEN b ELSE a
              fp == IF CompDir(rule) = "F" THEN a ELSE b
              lw == SideW(g, n, "\\")
              y == Len(Flat(f.a))
              x == Len(Flat(f.r))
              gl == SubSeq(gp, 1, lw)
              gy == SubSeq(gp, lw + 1, lw + y)
              gr == SubSeq(gp, lw + y + 1, Len(gp))
              fx == IF f.k = "/" THEN SubSeq(fp, 1, x) ELSE SubSeq(fp, y + 1, Len(fp))
              fy == IF f.k = "/" THEN SubSeq(fp, x + 1, Len(fp)) ELSE SubSeq(fp, 1, y)
          IN  Ph(gl \o fx \o gr, links \cup Cups(fy, gy), words)
(* the phrases t can become with category out (none: it cannot be re-typed) *)
RECURSIVE Phrases(_, _, _)
Phrases(t, out, path) ==
  IF t.rule = "L" THEN
     IF out = Punc THEN {Ph(<<>>, {}, <<>>)}
     ELSE LET f == Flat(out) IN
          {Ph([i \in 1..Len(f) |-> <<path, i>>], {}, <<[w |-> t.w, t |-> f, at |-> path]>>)}
  ELSE IF t.rule = "U" THEN
     IF Flips(t, out) THEN
       LET k == IF out.k = "/" THEN Len(Flat(out.a)) ELSE Len(Flat(out.r))
       IN  {Ph(SubSeq(p.ports, k + 1, Len(p.ports)) \o SubSeq(p.ports, 1, k), p.links, p.words) :
              p \in Phrases(t.ch[1], FlipCat(out), Append(path, 1))}
     ELSE Phrases(t.ch[1], out, Append(path, 1))
  ELSE UNION {
     LET one == Phrases(t.ch[1], way.cs[1], Append(path, 1)) IN
     IF Len(way.cs) = 1 THEN {Join(t, out, path, way, <<p>>) : p \in one}
     ELSE {Join(t, out, path, way, <<p, q>>) : p \in one, q \in Phrases(t.ch[2], way.cs[2], Append(path, 2))}
     : way \in Downs(t, out)}

(* every token sits on at most two links: follow it to the other end        *)
RECURSIVE Other(_, _, _)
Other(links, tok, from) ==   \* the end of the path that leaves tok, coming from link `from`
  LET nx == {l \in links : tok \in l /\ l # from} IN
  IF nx = {} THEN tok
  ELSE LET l == CHOOSE z \in nx : TRUE
           o == CHOOSE z \in l : z # tok
       IN  Other(links, o, l)
(* The finished wiring as a set of classes: pairs of word wires, and word   *)
(* wires paired with outputs.                                               *)
WordTok(p, tok) == \E i \in 1..Len(p.words) : p.words[i].at = tok[1]
Finished(p) ==
  LET real == UNION {{<<p.words[i].at, j>> : j \in 1..Len(p.words[i].t)} : i \in 1..Len(p.words)}
      outEnd(i) == Other(p.links, p.ports[i], {})
      outs == {<<i, outEnd(i)>> : i \in 1..Len(p.ports)}
      outToks == {p.ports[i] : i \in 1..Len(p.ports)}
  IN  [pairs |-> {{x, Other(p.links, x, {})} : x \in {y \in real : Other(p.links, y, {}) \notin outToks /\ Other(p.links, y, {}) # y}},
       outs |-> outs]
(* does every node fit its combinator? (a leaf fits)                         *)
RECURSIVE AllFit(_)
AllFit(t) == /\ t.rule = "L" \/ Fits(t.rule, ChCats(t), t.cat)
             /\ \A i \in 1..Len(t.ch) : AllFit(t.ch[i])
RECURSIVE HasFlip(_, _)
HasFlip(t, out) ==
  CASE t.rule = "L" -> FALSE
    [] t.rule = "U" -> Flips(t, out) \/ HasFlip(t.ch[1], out)
    [] OTHER -> \E way \in Downs(t, out) : \E i \in 1..Len(t.ch) : HasFlip(t.ch[i], way.cs[i])
(* re-typing a generalised composition: which wires carry the change is left *)
(* open, and it may be refused                                               *)
RECURSIVE Loose(_, _)
Loose(t, out) ==
  CASE t.rule = "L" -> FALSE
    [] t.rule = "U" -> Loose(t.ch[1], IF Flips(t, out) THEN FlipCat(out) ELSE out)
    [] OTHER -> \/ out # t.cat /\ IsComp(t.rule) /\ t.rule \notin {"FC", "BC", "FX", "BX"}
                \/ \E way \in Downs(t, out) : \E i \in 1..Len(t.ch) : Loose(t.ch[i], way.cs[i])
(* collapsing noun phrases renames np to n everywhere                        *)
RECURSIVE Noun(_), NounT(_)
Noun(x) == IF x.k = "a" THEN (IF x.n = "np" THEN Atom("n") ELSE x)
           ELSE IF x.k = "e" THEN x ELSE Sl(x.k, Noun(x.r), Noun(x.a))
NounT(t) == [t EXCEPT !.cat = Noun(t.cat), !.ch = [i \in 1..Len(t.ch) |-> NounT(t.ch[i])]]

(* ---- resolved derivations -------------------------------------------------*)
(* re-typed phrases are pushed down to the words; what is left of a unary    *)
(* rule is only a change of direction, and a conjunction is an application   *)
RECURSIVE ResolvedTrees(_, _)
ResolvedTrees(t, out) ==
  LET mk(rule, kids) == [rule |-> rule, cat |-> out, ch |-> kids, w |-> t.w] IN
  CASE t.rule = "L" -> {mk("L", <<>>)}
    [] t.rule = "U" -> IF Flips(t, out) THEN {mk("U", <<x>>) : x \in ResolvedTrees(t.ch[1], FlipCat(out))}
                       ELSE ResolvedTrees(t.ch[1], out)
    [] OTHER -> UNION {LET r == IF t.rule = "CONJ" THEN IF Glue(t.ch[1].cat) THEN "FA" ELSE "BA" ELSE t.rule IN
                       IF Len(way.cs) = 1 THEN {mk(r, <<x>>) : x \in ResolvedTrees(t.ch[1], way.cs[1])}
                       ELSE {mk(r, <<x, y>>) : x \in ResolvedTrees(t.ch[1], way.cs[1]), y \in ResolvedTrees(t.ch[2], way.cs[2])}
                       : way \in Downs(t, out)}
RECURSIVE CatStr(_)
CatStr(x) == LET par(y) == IF IsC(y) THEN "(" \o CatStr(y) \o ")" ELSE CatStr(y)
             IN  CASE x.k = "a" -> x.n [] x.k = "e" -> "()" [] OTHER -> par(x.r) \o x.k \o par(x.a)
RECURSIVE HeightT(_)
HeightT(t) == IF t.ch = <<>> THEN 0
              ELSE IF Len(t.ch) = 1 THEN 1 + HeightT(t.ch[1])
              ELSE 1 + (IF HeightT(t.ch[1]) > HeightT(t.ch[2]) THEN HeightT(t.ch[1]) ELSE HeightT(t.ch[2]))
=============================================================================
