------------------------------- MODULE Bobcat -------------------------------
(* Chart parsing with a combinatory categorial grammar whose categories     *)
(* carry variables (heads), with unification.                                *)
(*                                                                           *)
(* Category: [at, f, v] atomic, [dir, r, g, v] complex; v: variable, 0 none. *)
(* Item: [rule, cat, hd, score, base, chain]: hd the known variables         *)
(* <<v, filled>>; base the score below the unary chain.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Cx(c) == "dir" \in DOMAIN c
Fwd(c) == Cx(c) /\ c.dir = "/"
Bwd(c) == Cx(c) /\ c.dir = "\\"
Slash(r, d, g, v) == [dir |-> d, r |-> r, g |-> g, v |-> v]
Free(f) == f \in {"", "X"}
RECURSIVE CatEq(_, _)
CatEq(a, b) == IF Cx(a) # Cx(b) THEN FALSE
               ELSE IF Cx(a) THEN a.dir = b.dir /\ CatEq(a.r, b.r) /\ CatEq(a.g, b.g)
               ELSE a.at = b.at /\ (a.f = b.f \/ (a.at = "S" /\ Free(a.f) /\ Free(b.f)))
(* p is a pattern: no feature stands for any *)
RECURSIVE Fits(_, _)
Fits(p, c) == IF Cx(p) # Cx(c) THEN FALSE
              ELSE IF Cx(p) THEN p.dir = c.dir /\ Fits(p.r, c.r) /\ Fits(p.g, c.g)
              ELSE p.at = c.at /\ (p.f = "" \/ p.f = c.f)
RECURSIVE Vars(_)
Vars(c) == (IF c.v = 0 THEN {} ELSE {c.v}) \cup (IF Cx(c) THEN Vars(c.r) \cup Vars(c.g) ELSE {})
At(a, f) == [at |-> a, f |-> f, v |-> 0]
VP == Slash(At("S", ""), "\\", At("NP", ""), 0)
Puncts == {",", ";", ":", ".", "LQU", "RQU", "LRB", "RRB"}
Kind(c) == IF Cx(c) THEN IF c.dir = "/" THEN "F" ELSE "B"
           ELSE IF c.at \in Puncts THEN "P" ELSE IF c.at = "conj" THEN "C" ELSE "A"

(* --------------------------------------------------------- unification -- *)
(* l, m: variable renamings of the left and the right category              *)
Has(m, v) == \E p \in m : p[1] = v
Get(m, v) == (CHOOSE p \in m : p[1] = v)[2]
Knows(it, v) == \E p \in it.hd : p[1] = v
Filled(it, v) == \E p \in it.hd : p = <<v, TRUE>>
RECURSIVE Uni(_, _, _, _, _)
Bind(s, L, R, a, b) ==
  IF ~s.ok \/ Has(s.l, a.v) \/ Has(s.m, b.v) THEN s
  ELSE IF Filled(L, a.v) /\ Filled(R, b.v) THEN [s EXCEPT !.ok = FALSE]
  ELSE [s EXCEPT !.l = @ \cup {<<a.v, s.n>>}, !.m = @ \cup {<<b.v, s.n>>}, !.n = @ + 1]
Uni(s, L, R, a, b) ==
  IF ~s.ok THEN s
  ELSE IF Cx(a) # Cx(b) THEN [s EXCEPT !.ok = FALSE]
  ELSE IF ~Cx(a) THEN
    IF a.at # b.at THEN [s EXCEPT !.ok = FALSE]
    ELSE IF a.at = "S" /\ a.f # "X" /\ b.f # "X" /\ a.f # b.f THEN [s EXCEPT !.ok = FALSE]
    ELSE Bind(IF a.at # "S" THEN s ELSE IF a.f = "X" THEN [s EXCEPT !.feat = b.f] ELSE IF b.f = "X" THEN [s EXCEPT !.feat = a.f] ELSE s,
              L, R, a, b)
  ELSE IF a.dir # b.dir THEN [s EXCEPT !.ok = FALSE]
  ELSE Bind(Uni(Uni(s, L, R, a.r, b.r), L, R, a.g, b.g), L, R, a, b)
RECURSIVE Fresh(_, _, _)
(* new numbers for the variables not yet renamed, in order *)
Fresh(m, vs, n) == IF vs = {} THEN [m |-> m, n |-> n]
                   ELSE LET v == Min(vs) IN IF Has(m, v) THEN Fresh(m, vs \ {v}, n)
                                           ELSE Fresh(m \cup {<<v, n>>}, vs \ {v}, n + 1)
(* L and R combine; the result comes from the left one iff resLeft; x is    *)
(* the part of the argument category, y of the functor, that are unified    *)
Unify(L, R, resLeft, x, y) ==
  LET s0 == [ok |-> TRUE, n |-> 1, l |-> {}, m |-> {}, feat |-> ""]
      s == IF resLeft THEN Uni(s0, L, R, y, x) ELSE Uni(s0, L, R, x, y)
      f1 == IF resLeft THEN Fresh(s.m, Vars(R.cat), s.n) ELSE Fresh(s.l, Vars(L.cat), s.n)
      f2 == IF resLeft THEN Fresh(s.l, Vars(L.cat), f1.n) ELSE Fresh(s.m, Vars(R.cat), f1.n)
  IN  IF ~s.ok THEN s
      ELSE [s EXCEPT !.n = f2.n, !.l = IF resLeft THEN f2.m ELSE f1.m, !.m = IF resLeft THEN f1.m ELSE f2.m]
RECURSIVE Renamed(_, _, _)
Renamed(c, m, feat) ==
  IF Cx(c) THEN Slash(Renamed(c.r, m, feat), c.dir, Renamed(c.g, m, feat), Get(m, c.v))
  ELSE [c EXCEPT !.v = Get(m, c.v), !.f = IF c.f = "X" /\ feat # "" THEN feat ELSE c.f]
(* every head known on either side is known and filled *)
Heads(u, L, R) == {<<k, TRUE>> : k \in {p[2] : p \in {q \in u.l : Knows(L, q[1])} \cup {q \in u.m : Knows(R, q[1])}}}
Outer(u, L) == IF Has(u.l, L.cat.v) THEN Get(u.l, L.cat.v) ELSE 0
It(rule, cat, hd) == [rule |-> rule, cat |-> cat, hd |-> hd]

(* ------------------------------------------------------- combinators ---- *)
TypeRaised(x) == x.rule \in {"FTR", "BTR"}
Coord(x) == x.rule = "CONJ"
BwdComp(x) == x.rule \in {"BC", "GBC"}
FwdComp(x) == x.rule \in {"FC", "GFC"}
Apply(L, R, fwd) ==
  LET fn == IF fwd THEN L ELSE R
      arg == IF fwd THEN R ELSE L
      u == Unify(L, R, fwd, arg.cat, fn.cat.g)
  IN  IF u.ok THEN {It(IF fwd THEN "FA" ELSE "BA", Renamed(fn.cat.r, IF fwd THEN u.l ELSE u.m, u.feat), Heads(u, L, R))} ELSE {}
BA(G, L, R) == IF Bwd(R.cat) /\ ~Coord(L) /\ ~TypeRaised(L) /\ ~(G.enf /\ BwdComp(R)) THEN Apply(L, R, FALSE) ELSE {}
FA(G, L, R) == IF Fwd(L.cat) /\ ~Coord(R) /\ ~TypeRaised(R) /\ ~(G.enf /\ FwdComp(L)) THEN Apply(L, R, TRUE) ELSE {}
(* X/Y Y/Z => X/Z,  Y\Z X\Y => X\Z,  Y/Z X\Y => X/Z                         *)
Compose(L, R, comp, depth) ==
  LET fwd == comp = "FC"
      fn == IF fwd THEN L ELSE R
      arg == IF fwd THEN R ELSE L
      a == arg.cat
      core == CASE depth = 1 -> a.r [] depth = 2 -> a.r.r [] depth = 3 -> a.r.r.r
      u == Unify(L, R, fwd, core, fn.cat.g)
      mf == IF fwd THEN u.l ELSE u.m
      ma == IF fwd THEN u.m ELSE u.l
      top == Renamed(fn.cat.r, mf, u.feat)
      over(r, x) == Slash(r, x.dir, Renamed(x.g, ma, u.feat), Get(ma, x.v))
      last(r) == Slash(r, IF depth > 1 THEN a.dir ELSE IF comp = "BC" THEN "\\" ELSE "/", Renamed(a.g, ma, u.feat), Outer(u, L))
  IN  IF ~u.ok THEN {}
      ELSE {It(IF depth > 1 THEN "G" \o comp ELSE comp,
               CASE depth = 1 -> last(top)
                 [] depth = 2 -> last(over(top, a.r))
                 [] depth = 3 -> last(over(over(top, a.r.r), a.r)),
               Heads(u, L, R))}
FeatOf(c) == IF Cx(c) THEN "" ELSE c.f
Generalised(L, R, comp) ==
  LET fn == IF comp = "FC" THEN L ELSE R
      a == (IF comp = "FC" THEN R ELSE L).cat
      ok2 == /\ Fits(VP, fn.cat.g) /\ Cx(a) /\ Fwd(a.r)
             /\ Cx(a.r.r) /\ FeatOf(a.r.r.r) # "X"
      ok3 == Fwd(a.r.r) /\ Cx(a.r.r.r) /\ FeatOf(a.r.r.r.r) # "X"
      two == Compose(L, R, comp, 2)
  IN  IF ~ok2 THEN {}
      ELSE IF two # {} THEN two
      ELSE IF ok3 THEN Compose(L, R, comp, 3) ELSE {}
GenBackward(L, R) ==
  LET dcl == At("S", "dcl") IN
  IF Cx(L.cat) /\ Fits(Slash(dcl, "\\", dcl, 0), L.cat.r) /\ Filled(L, L.cat.r.r.v)
  THEN LET u == Unify(L, R, FALSE, L.cat.r.r, R.cat.g) IN IF u.ok THEN {It("GBC", L.cat, Heads(u, L, R))} ELSE {}
  ELSE {}
Or(a, b) == IF a # {} THEN a ELSE b
FC(G, L, R) == IF Fwd(L.cat) /\ Fwd(R.cat) /\ ~(G.enf /\ FwdComp(L)) THEN Or(Compose(L, R, "FC", 1), Generalised(L, R, "FC")) ELSE {}
BC(G, L, R) == IF Bwd(L.cat) /\ Bwd(R.cat) /\ ~Coord(L) /\ ~Coord(R) /\ ~(G.enf /\ BwdComp(R))
               THEN Or(Compose(L, R, "BC", 1), GenBackward(L, R)) ELSE {}
BX(G, L, R) == IF Fwd(L.cat) /\ Bwd(R.cat) /\ ~Coord(R) /\ ~(~Cx(R.cat.g) /\ R.cat.g.at \in {"N", "NP"})
               THEN Or(Compose(L, R, "BX", 1), Generalised(L, R, "BX")) ELSE {}
Unfilled(it) == {<<p[1], FALSE>> : p \in it.hd}
Doubled(c) == Slash(c, "\\", c, 0)
Conj(L, R) == IF ~Cx(L.cat) /\ L.cat.at = "conj" /\ ~Coord(R) /\ ~TypeRaised(R) THEN {It("CONJ", Doubled(R.cat), Unfilled(R))} ELSE {}
AdjConj(L, R) == IF ~Cx(R.cat) /\ R.cat.at = "N" THEN {It("ADJ_CONJ", R.cat, R.hd)} ELSE {}

(* the first rule list whose key is the category, else whose key fits it    *)
Table(rows, cat) ==
  LET eq == {i \in 1..Len(rows) : CatEq(rows[i].from, cat)}
      fit == {i \in 1..Len(rows) : Fits(rows[i].from, cat)}
      key == IF eq # {} THEN rows[Min(eq)].from ELSE IF fit # {} THEN rows[Min(fit)].from ELSE cat
  IN  IF eq = {} /\ fit = {} THEN {} ELSE {rows[i].to : i \in {i \in 1..Len(rows) : CatEq(rows[i].from, key)}}
Changed(rule, to, head) == It(rule, to, IF to.v # 0 /\ Knows(head, head.cat.v) THEN {<<to.v, Filled(head, head.cat.v)>>} ELSE {})
Rows(rows, p) == SelectSeq(rows, LAMBDA x : CatEq(x.punct, p))
LeftP(G, L, R) ==
  (IF Coord(R) \/ TypeRaised(R) THEN {}
   ELSE {It("LP", R.cat, R.hd)} \cup (IF L.cat.at \in {",", ";"} THEN {It("CONJ", Doubled(R.cat), Unfilled(R))} ELSE {}))
  \cup {Changed("LP", to, R) : to \in Table(Rows(G.lpunct, L.cat), R.cat)}
RightP(G, L, R) ==
  (IF Coord(L) \/ TypeRaised(L) THEN {} ELSE {It("RP", L.cat, L.hd)})
  \cup (IF Coord(L) THEN {} ELSE {Changed("RP", to, L) : to \in Table(Rows(G.rpunct, R.cat), L.cat)})
(* all pairs from the universe may meet, but for the listed ones            *)
InUniverse(G, a) == \E i \in 1..Len(G.universe) : CatEq(G.universe[i], a)
Licensed(G, a, b) == /\ InUniverse(G, a) /\ InUniverse(G, b)
                     /\ ~\E i \in 1..Len(G.barred) : CatEq(G.barred[i][1], a) /\ CatEq(G.barred[i][2], b)
Combine(G, L, R) ==
  LET k == <<Kind(L.cat), Kind(R.cat)>> IN
  LET bs ==
       CASE k = <<"A", "B">> -> BA(G, L, R)
         [] k = <<"F", "A">> \/ k = <<"F", "C">> -> FA(G, L, R)
         [] k = <<"F", "F">> -> Or(FA(G, L, R), FC(G, L, R))
         [] k = <<"F", "B">> -> Or(BA(G, L, R), Or(FA(G, L, R), BX(G, L, R)))
         [] k = <<"B", "B">> -> Or(BA(G, L, R), BC(G, L, R))
         [] k = <<"C", "A">> -> Conj(L, R) \cup AdjConj(L, R)
         [] k = <<"C", "B">> \/ k = <<"C", "F">> -> Or(BA(G, L, R), Conj(L, R))
         [] k[1] = "P" /\ k[2] \in {"A", "B", "F"} -> LeftP(G, L, R)
         [] k[2] = "P" /\ k[1] \in {"A", "B", "F"} -> RightP(G, L, R)
         [] OTHER -> {}
  IN  IF bs = {} THEN {} ELSE IF Licensed(G, L.cat, R.cat) THEN bs ELSE {}
Change(G, x) == {Changed("U", to, x) : to \in Table(G.unary, x.cat)}
Raise(G, x) == {It(IF Fwd(to) THEN "FTR" ELSE "BTR", to, IF Knows(x, x.cat.v) THEN {<<1, Filled(x, x.cat.v)>>} ELSE {}) : to \in Table(G.raising, x.cat)}

(* ------------------------------------------------------------ scores ---- *)
(* sp: the scores of a span by id, None where there is none; ids: seq of    *)
(* [label, cats]                                                            *)
None == 0 - 100000000
IdOf(ids, label, cats) ==
  LET m == {i \in 1..Len(ids) : ids[i].label = label /\ Len(ids[i].cats) = Len(cats) /\ \A k \in 1..Len(cats) : CatEq(ids[i].cats[k], cats[k])}
  IN  IF m = {} THEN 0 - 1 ELSE Max(m)
SpanScore(P, sp, id) ==
  IF id < 0 THEN P.nocat
  ELSE IF id > Len(sp) THEN P.nospan ELSE IF sp[id] = None THEN P.nospan ELSE sp[id]
BinaryId(P, it) ==
  IF it.rule = "CONJ" THEN IdOf(P.ids, "conj", <<it.cat>>)
  ELSE LET i == IdOf(P.ids, "binary", <<it.cat>>)
       IN  IF i < 0 /\ ~Cx(it.cat) /\ it.cat.at = "NP" THEN IdOf(P.ids, "binary", <<At("NP", "")>>) ELSE i
Scored(P, sp, it, sum) == it @@ [base |-> sum, chain |-> <<it.cat>>, score |-> sum + SpanScore(P, sp, BinaryId(P, it))]
ScoredUnary(P, sp, it, x) ==
  LET ch == <<it.cat>> \o x.chain
  IN  it @@ [base |-> x.base, chain |-> ch, score |-> x.base + SpanScore(P, sp, IdOf(P.ids, "unary", ch))]
Closure(G, P, sp, xs) ==
  LET us == UNION {{ScoredUnary(P, sp, u, x) : u \in Change(G, x)} : x \in xs}
      ts == UNION {{ScoredUnary(P, sp, u, x) : u \in Raise(G, x)} : x \in xs \cup us}
  IN  xs \cup us \cup ts
Leaf(P, tag) == [rule |-> "L", cat |-> tag.cat, hd |-> {<<tag.cat.v, TRUE>>}, score |-> P.tagw * tag.s, base |-> P.tagw * tag.s, chain |-> <<tag.cat>>]
RootOK(P, cat) == ~P.rooted \/ \E i \in 1..Len(P.roots) : Fits(P.roots[i], cat)

(* -------------------------------------------------------------- chart --- *)
(* A cell keeps the best item of each category, and of those the beam.      *)
Bests(xs) == {x \in xs : \A y \in xs : CatEq(x.cat, y.cat) => y.score <= x.score}
(* one representative per category *)
RECURSIVE Reps(_)
Reps(xs) == IF xs = {} THEN {} ELSE LET x == CHOOSE x \in xs : TRUE IN {x} \cup Reps({y \in xs : ~CatEq(x.cat, y.cat)})
Beam(P, xs) == {x \in xs : Cardinality({y \in xs : y.score > x.score}) < P.beam}
Cell(P, xs) == Beam(P, Reps(Bests(xs)))
(* another choice of equally good items would have been possible            *)
Same(x, y) == x.rule = y.rule /\ x.cat = y.cat /\ x.hd = y.hd
Ambiguous(xs) == \E x, y \in Bests(xs) : x.score = y.score /\ CatEq(x.cat, y.cat) /\ ~(x.cat = y.cat /\ x.hd = y.hd /\ x.rule = y.rule /\ x.base = y.base /\ x.chain = y.chain)
SpanAt(S, i, j) == LET m == {k \in 1..Len(S.spans) : S.spans[k].i = i /\ S.spans[k].j = j} IN IF m = {} THEN 0 ELSE Max(m)
CellAt(chart, i, j) == IF <<i, j>> \in DOMAIN chart THEN chart[<<i, j>>] ELSE {}
(* everything that can stand in span i..j, given the smaller cells          *)
Fill(G, P, S, chart, i, j) ==
  LET n == Len(S.tags)
      k == SpanAt(S, i, j)
      sp == IF k = 0 THEN <<>> ELSE S.spans[k].scores
      whole == i = 1 /\ j = n
  IN  IF i = j THEN
        LET ls == {Leaf(P, S.tags[i][t]) : t \in 1..Len(S.tags[i])}
            all == IF k # 0 /\ n > 1 THEN Closure(G, P, sp, ls) ELSE ls
        IN  IF n = 1 THEN {x \in all : RootOK(P, x.cat)} ELSE all
      ELSE IF k = 0 THEN {}
      ELSE LET pair(x, y) == LET bs == {Scored(P, sp, b, x.score + y.score) : b \in Combine(G, x, y)}
                             IN  IF whole THEN bs ELSE Closure(G, P, sp, bs)
               all == UNION {UNION {pair(x, y) : x \in CellAt(chart, i, m), y \in CellAt(chart, m + 1, j)} : m \in i..(j - 1)}
           IN  IF whole THEN {x \in all : RootOK(P, x.cat)} ELSE all
=============================================================================
