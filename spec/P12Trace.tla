------------------------------ MODULE P12Trace ------------------------------
(* Judges what the implementation makes of CCG derivations.                *)
EXTENDS CCG, Json, IOUtils
D == INSTANCE Diagrams
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l

WordPort(w, i) == <<"word", w, 0, 0, <<>>, 1, "out", i>>
PortOf(p, tok) == LET w == CHOOSE x \in {p.words[i] : i \in 1..Len(p.words)} : x.at = tok[1]
                  IN  WordPort(w.w, tok[2])
(* a wire that comes out of no word: both ends of a raising come out        *)
IsWordTok(p, tok) == \E i \in 1..Len(p.words) : p.words[i].at = tok[1]
OutTok(p, tok) == \E i \in 1..Len(p.ports) : p.ports[i] = tok
ExpLinks(p) ==
  LET f == Finished(p)
      end(o) == IF IsWordTok(p, o[2]) THEN PortOf(p, o[2])
                ELSE <<"cod", CHOOSE i \in 1..Len(p.ports) : p.ports[i] = o[2]>>
  IN  {{PortOf(p, x) : x \in q} : q \in f.pairs}
      \cup {{<<"cod", o[1]>>, end(o)} : o \in f.outs}
ExpWords(p) == [i \in 1..Len(p.words) |-> <<p.words[i].w, p.words[i].t>>]
GotWords(d) == [i \in 1..Len(D!RealBoxes(d)) |-> <<D!RealBoxes(d)[i].n, D!RealBoxes(d)[i].c>>]
(* words stand left to right on top, then only cups, caps and swaps          *)
WordsOnTop(d, k) == \A i \in 1..Len(d.layers) :
   IF i <= k THEN d.layers[i].b.k = "word" ELSE d.layers[i].b.k \notin {"word", "box"}
RECURSIVE PortSeq(_)
PortSeq(ws) == IF ws = <<>> THEN <<>>
               ELSE [i \in 1..Len(ws[1][2]) |-> WordPort(ws[1][1], i)] \o PortSeq(Tail(ws))
TopLinks(d, k) == LET e == [dom |-> d.dom, cod |-> D!LayCod(d.layers[k]), layers |-> SubSeq(d.layers, 1, k)]
                  IN  D!Wiring(e).links
InOrder(d, ws) == Len(ws) = 0 \/ TopLinks(d, Len(ws)) = LET ps == PortSeq(ws) IN {{<<"cod", i>>, ps[i]} : i \in 1..Len(ps)}
NoSwaps(d) == \A i \in 1..Len(d.layers) : d.layers[i].b.k # "swap"
Shape(d, t, p) ==
  (IF d.dom = <<>> THEN {} ELSE {"domain"})
  \cup (IF d.cod = Flat(t.cat) THEN {} ELSE {"codomain"})
  \cup (IF D!WellTyped(d) THEN {} ELSE {"ill-typed"})
  \cup (IF D!SameBag(GotWords(d), ExpWords(p)) THEN {} ELSE {"words"})
Match(d, p) == D!Wiring(d).links = ExpLinks(p)

(* what must be refused: no rule, a conjunction of nothing, a composition   *)
(* whose middle categories differ                                            *)
MidDiffer(t) ==
  LET a == t.ch[1].cat
      b == t.ch[2].cat
  IN  CASE t.rule = "FC" -> a.k = "/" /\ b.k = "/" /\ a.a # b.r /\ t.ch[1].rule # "FTR"
        [] t.rule = "BC" -> a.k = "\\" /\ b.k = "\\" /\ a.r # b.a
        [] t.rule = "FX" -> a.k = "/" /\ b.k = "\\" /\ a.a # b.r
        [] t.rule = "BX" -> a.k = "/" /\ b.k = "\\" /\ a.r # b.a
        [] OTHER -> FALSE
RECURSIVE MustRefuse(_)
MustRefuse(t) ==
  \/ t.rule = "UNK"
  \/ t.rule = "CONJ" /\ ~Glue(t.ch[1].cat) /\ ~Glue(t.ch[2].cat)
  \/ t.rule \in {"FC", "BC", "FX", "BX"} /\ MidDiffer(t)
  \/ \E i \in 1..Len(t.ch) : MustRefuse(t.ch[i])

JudgeDiagram(e) ==
  LET t == IF e.collapse = 1 THEN NounT(e.tree) ELSE e.tree
      ps == IF AllFit(t) THEN Phrases(t, t.cat, <<>>) ELSE {}
  IN
  IF ps # {} /\ Loose(t, t.cat) THEN
    (IF e.ok = 1 /\ (e.d.dom # <<>> \/ e.d.cod # Flat(t.cat) \/ ~D!WellTyped(e.d)) THEN {"loose: type"} ELSE {})
  ELSE
  IF e.ok = 0 THEN
     (IF ps # {} /\ ~(e.planar = 1 /\ HasFlip(t, t.cat)) THEN {"refused"} ELSE {})
  ELSE IF ps = {} THEN (IF MustRefuse(t) THEN {"accepted"} ELSE {})
  ELSE LET p0 == CHOOSE p \in ps : TRUE IN
     (IF \E p \in ps : Shape(e.d, t, p) = {} /\ Match(e.d, p) THEN {}
      ELSE IF \E p \in ps : Shape(e.d, t, p) = {} THEN {"wiring"} ELSE Shape(e.d, t, p0))
     \cup (IF e.planar = 1 THEN (IF NoSwaps(e.d) THEN {} ELSE {"swaps in a planar diagram"})
           ELSE IF /\ WordsOnTop(e.d, Len(p0.words))
                   /\ InOrder(e.d, GotWords(e.d))
                   /\ [i \in 1..Len(p0.words) |-> p0.words[i].w] = [i \in 1..Len(GotWords(e.d)) |-> GotWords(e.d)[i][1]]
                THEN {} ELSE {"word order"})

Rules1 == {"FTR", "BTR"}
JudgeInfer(e) ==
  IF Len(e.dom) = 0 THEN (IF e.rule = "L" THEN {} ELSE {"infer lexical"})
  ELSE IF Len(e.dom) = 1 THEN
    LET fit == {r \in Rules1 : Fits(r, e.dom, e.cod)} IN
    IF fit = {} THEN (IF e.rule = "U" THEN {} ELSE {"infer unary"})
    ELSE IF e.rule \in fit THEN {} ELSE {"infer raising"}
  ELSE LET fit == {r \in Binary : Fits(r, e.dom, e.cod)} IN
    IF fit # {} THEN (IF e.rule \in fit THEN {} ELSE {"infer: another rule"})
    ELSE IF Glue(e.dom[1]) \/ Glue(e.dom[2]) THEN {}
    ELSE IF e.rule = "UNK" THEN {} ELSE {"infer: no rule fits"}
(* applying one rule to phrases: its diagram joins them as Join says         *)
JudgeApply(e) ==
  LET pt(k, cat) == Ph([i \in 1..Len(Flat(cat)) |-> <<<<k>>, i>>], {}, <<[w |-> ToString(k), t |-> Flat(cat), at |-> <<k>>]>>)
      leaf(k, cat) == [rule |-> "L", cat |-> cat, ch |-> <<>>, w |-> ToString(k)]
      t == [rule |-> e.rule, cat |-> e.cod, ch |-> [i \in 1..Len(e.dom) |-> leaf(i, e.dom[i])], w |-> ""]
      ok == Fits(e.rule, e.dom, e.cod)
      flat == [i \in 1..Len(e.dom) |-> IF e.dom[i] = Punc THEN <<>> ELSE Flat(e.dom[i])]
      off(k) == IF k = 1 THEN 0 ELSE Len(flat[1])
      dom == IF Len(e.dom) = 1 THEN flat[1] ELSE flat[1] \o flat[2]
      ps == {Join(t, e.cod, <<>>, way, [i \in 1..Len(e.dom) |-> IF e.dom[i] = Punc THEN Ph(<<>>, {}, <<>>) ELSE pt(i, e.dom[i])]) :
               way \in Downs(t, e.cod)}
      port(tok) == <<"dom", off(tok[1][1]) + tok[2]>>
      links(p) == LET f == Finished(p)
                      isDom(tok) == tok[1] \in {<<1>>, <<2>>}
                  IN {{port(x) : x \in q} : q \in f.pairs}
                     \cup {{<<"cod", o[1]>>, IF isDom(o[2]) THEN port(o[2])
                             ELSE <<"cod", CHOOSE i \in 1..Len(p.ports) : p.ports[i] = o[2]>>} : o \in f.outs}
  IN  IF ~ok THEN {}
      ELSE IF e.rule = "CONJ" THEN (IF e.ok = 0 THEN {} ELSE {"conjunction applied"})
      ELSE IF e.rule = "U" THEN (IF e.ok = 1 /\ e.d = D!IdD(dom) THEN {} ELSE {"unary rule applied"})
      ELSE IF e.ok = 0 THEN {"rule refused"}
      ELSE IF e.d.dom = dom /\ e.d.cod = Flat(e.cod) /\ D!WellTyped(e.d)
              /\ \E p \in ps : D!Wiring(e.d).links = links(p) THEN {} ELSE {"rule diagram"}
RECURSIVE Trivial(_), Strip1(_), Height(_)
Height(t) == IF t.ch = <<>> THEN 0 ELSE 1 + (LET hs == {Height(t.ch[i]) : i \in 1..Len(t.ch)} IN CHOOSE h \in hs : \A g \in hs : g <= h)
Trivial(t) == t.rule = "U" /\ t.cat = t.ch[1].cat
Strip1(t) == IF Trivial(t) THEN Strip1(t.ch[1]) ELSE [t EXCEPT !.ch = [i \in 1..Len(t.ch) |-> Strip1(t.ch[i])]]
RECURSIVE Plain(_)  \* without the recorded heights
Plain(t) == [rule |-> t.rule, cat |-> t.cat, w |-> t.w, ch |-> [i \in 1..Len(t.ch) |-> Plain(t.ch[i])]]
RECURSIVE HeightsOk(_)
HeightsOk(t) == t.h = Height(t) /\ \A i \in 1..Len(t.ch) : HeightsOk(t.ch[i])
JudgeTrivial(e) ==
  IF e.ok = 0 THEN {"trivial: refused"}
  ELSE (IF Plain(e.out) = Strip1(e.tree) THEN {} ELSE {"trivial: tree"})
       \cup (IF HeightsOk(e.out) THEN {} ELSE {"trivial: height"})
       \cup (IF e.same = 1 THEN {} ELSE {"trivial: operand changed"})
Judge(e) == CASE e.op = "diagram" -> JudgeDiagram(e)
              [] e.op = "infer" -> JudgeInfer(e)
              [] e.op = "apply" -> JudgeApply(e)
              [] e.op = "trivial" -> JudgeTrivial(e)
Init == c \in 1..Len(Cases) /\ l = 1
Report(e) == \A f \in Judge(e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o f \o "|" \o e.op \o " event " \o ToString(l))
Next == /\ l <= Len(Cases[c].events)
        /\ Report(Cases[c].events[l])
        /\ l' = l + 1 /\ c' = c
        /\ (l = Len(Cases[c].events) => PrintT("@@DONE|" \o ToString(l)))
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
