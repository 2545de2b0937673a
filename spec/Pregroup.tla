------------------------------ MODULE Pregroup ------------------------------
(* Pregroup sentences: words over a line of wires, joined by cups, crossed   *)
(* by swaps, bent by caps; and pregroup trees.  Wires are numbered in the    *)
(* order in which they come into being (so those of the words first); a type *)
(* is a sequence of <<name, z>>.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Rot(t, k) == IF k % 2 = 0 THEN [i \in 1..Len(t) |-> <<t[i][1], t[i][2] + k>>]
             ELSE [i \in 1..Len(t) |-> <<t[Len(t) + 1 - i][1], t[Len(t) + 1 - i][2] + k>>]
RightAdj(t) == Rot(t, 1)
LeftAdj(t) == Rot(t, 0 - 1)

(* ---- running a diagram -------------------------------------------------- *)
(* state: line of wires, word and type of every wire (word 0: of a cap),     *)
(* links <<a, b>> made by cups, mates <<a, b>> made by caps                  *)
Start == [line |-> <<>>, own |-> <<>>, ty |-> <<>>, words |-> <<>>, links |-> {}, mates |-> {}, ok |-> TRUE]
TypesOf(s) == [k \in 1..Len(s.line) |-> s.ty[s.line[k]]]
Fits(s, y) == TypesOf(s) = y.L \o y.b.d \o y.R
Splice(q, at, n, new) == SubSeq(q, 1, at) \o new \o SubSeq(q, at + n + 1, Len(q))
Step(s, y) ==
  LET at == Len(y.L)
      m == Len(s.ty)
      fresh == [k \in 1..Len(y.b.c) |-> m + k]
  IN  IF ~s.ok \/ ~Fits(s, y) THEN [s EXCEPT !.ok = FALSE]
      ELSE CASE y.b.k = "word" ->
                  [s EXCEPT !.line = Splice(@, at, 0, fresh), !.words = Append(@, y.b.n),
                            !.own = @ \o [k \in 1..Len(y.b.c) |-> Len(s.words) + 1],
                            !.ty = @ \o y.b.c,
                            !.ok = (y.b.d = <<>>)]
             [] y.b.k = "cap" ->
                  [s EXCEPT !.line = Splice(@, at, 0, fresh), !.own = @ \o <<0, 0>>, !.ty = @ \o y.b.c,
                            !.mates = @ \cup {<<m + 1, m + 2>>},
                            !.ok = (Len(y.b.c) = 2 /\ y.b.d = <<>> /\ y.b.c[1][1] = y.b.c[2][1]
                                    /\ y.b.c[1][2] - y.b.c[2][2] \in {1, 0 - 1})]
             [] y.b.k = "cup" ->
                  [s EXCEPT !.line = Splice(@, at, 2, <<>>),
                            !.links = @ \cup {<<s.line[at + 1], s.line[at + 2]>>},
                            !.ok = (Len(y.b.d) = 2 /\ y.b.c = <<>> /\ y.b.d[1][1] = y.b.d[2][1]
                                    /\ y.b.d[2][2] - y.b.d[1][2] = (IF y.b.z % 2 = 0 THEN 1 ELSE 0 - 1))]
             [] y.b.k = "swap" ->
                  [s EXCEPT !.line = Splice(@, at, 2, <<s.line[at + 2], s.line[at + 1]>>),
                            !.ok = (Len(y.b.d) = 2 /\ y.b.c = <<y.b.d[2], y.b.d[1]>>)]
             [] OTHER -> [s EXCEPT !.ok = FALSE]
RECURSIVE RunFrom(_, _)
RunFrom(s, ls) == IF ls = <<>> THEN s ELSE RunFrom(Step(s, Head(ls)), Tail(ls))
Run(d) == LET s == RunFrom(Start, d.layers)
          IN  [s EXCEPT !.ok = @ /\ d.dom = <<>> /\ TypesOf(s) = d.cod]

(* ---- following wires ---------------------------------------------------- *)
Other(pair, p) == IF pair[1] = p THEN pair[2] ELSE pair[1]
Touching(S, p) == {x \in S : x[1] = p \/ x[2] = p}
(* the word wire, or the open end, that wire p leads to: across its cup, and *)
(* on through caps                                                           *)
RECURSIVE Follow(_, _, _)
Follow(s, p, n) ==
  LET u == Touching(s.links, p)
  IN  IF u = {} \/ n = 0 THEN <<"out", p>>
      ELSE LET q == Other(CHOOSE x \in u : TRUE, p)
           IN  IF s.own[q] # 0 THEN <<"wire", q>>
               ELSE Follow(s, Other(CHOOSE x \in Touching(s.mates, q) : TRUE, q), n - 1)
WordWires(s) == {p \in 1..Len(s.own) : s.own[p] # 0}
Leads(s, p) == Follow(s, p, Len(s.own))
(* pairs of word wires that are joined                                       *)
Joined(s) == {<<p, q>> \in WordWires(s) \X WordWires(s) : p < q /\ Leads(s, p) = <<"wire", q>>}
Free(s) == {p \in WordWires(s) : Leads(s, p)[1] = "out"}
WordLinks(s) == {<<s.own[x[1]], s.own[x[2]]>> : x \in Joined(s)}
Ascending(S) == IF S = {} THEN <<>> ELSE SetToSortSeq(S, LAMBDA a, b : a < b)
TypeOn(s, P) == LET q == Ascending(P) IN [k \in 1..Len(q) |-> s.ty[q[k]]]
Crosses(x, y) == (x[1] < y[1] /\ y[1] < x[2] /\ x[2] < y[2]) \/ (y[1] < x[1] /\ x[1] < y[2] /\ y[2] < x[2])

(* ---- trees -------------------------------------------------------------- *)
(* a tree: function i \in 1..n -> [w, t, p], p = 0 for the root              *)
RECURSIVE Reach(_, _)
Reach(S, E) == LET T == S \cup {x[2] : x \in {y \in E : y[1] \in S}} \cup {x[1] : x \in {y \in E : y[2] \in S}}
               IN  IF T = S THEN S ELSE Reach(T, E)
IsTree(tr) == LET n == Len(tr)
              IN  /\ Cardinality({i \in 1..n : tr[i].p = 0}) = 1
                  /\ Reach({i \in 1..n : tr[i].p = 0}, {<<tr[i].p, i>> : i \in {i \in 1..n : tr[i].p # 0}}) = 1..n
Root(tr) == CHOOSE i \in 1..Len(tr) : tr[i].p = 0
Children(tr, i) == {c \in 1..Len(tr) : tr[c].p = i}
RECURSIVE Descend(_, _)
Descend(tr, S) == LET T == S \cup UNION {Children(tr, i) : i \in S} IN IF T = S THEN S ELSE Descend(tr, T)
Projective(tr) == \A i \in 1..Len(tr) : LET D == Descend(tr, {i}) IN \A a, b \in D : \A k \in a..b : k \in D

(* the wires a tree asks for, in one canonical order: left arguments, own    *)
(* type, right arguments, nearest argument first on the left, last on the    *)
(* right; blocks are [to, t]                                                 *)
Blocks(tr, i) ==
  LET lf == Reverse(Ascending({c \in Children(tr, i) : c < i}))
      rt == Reverse(Ascending({c \in Children(tr, i) : c > i}))
  IN  [k \in 1..Len(lf) |-> [to |-> lf[k], t |-> RightAdj(tr[lf[k]].t)]]
      \o <<[to |-> 0 - 1, t |-> tr[i].t]>>
      \o [k \in 1..Len(rt) |-> [to |-> rt[k], t |-> LeftAdj(tr[rt[k]].t)]]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
WordType(tr, i) == LET b == Blocks(tr, i) IN Cat([k \in 1..Len(b) |-> b[k].t])
RECURSIVE Before(_, _)
Before(tr, i) == IF i = 1 THEN 0 ELSE Before(tr, i - 1) + Len(WordType(tr, i - 1))
RECURSIVE BlockAt(_, _)
BlockAt(b, k) == IF k = 1 THEN 0 ELSE BlockAt(b, k - 1) + Len(b[k - 1].t)
Wires(tr, i, to) == LET b == Blocks(tr, i)
                        k == CHOOSE k \in 1..Len(b) : b[k].to = to
                        o == Before(tr, i) + BlockAt(b, k)
                    IN  [j \in 1..Len(b[k].t) |-> o + j]
LinksOf(tr) == UNION {LET a == Wires(tr, c, 0 - 1)
                          b == Wires(tr, tr[c].p, c)
                      IN  {IF a[j] < b[1] THEN <<a[j], b[Len(a) + 1 - j]>> ELSE <<b[Len(a) + 1 - j], a[j]>> : j \in 1..Len(a)}
                      : c \in {c \in 1..Len(tr) : tr[c].p # 0 /\ tr[c].t # <<>>}}
(* the sentence as a run of a diagram would leave it                         *)
SentenceOf(tr) ==
  [line |-> Wires(tr, Root(tr), 0 - 1),
   own |-> Cat([i \in 1..Len(tr) |-> [k \in 1..Len(WordType(tr, i)) |-> i]]),
   ty |-> Cat([i \in 1..Len(tr) |-> WordType(tr, i)]),
   words |-> [i \in 1..Len(tr) |-> tr[i].w], links |-> LinksOf(tr), mates |-> {}, ok |-> TRUE]

(* ---- the tree a sentence describes -------------------------------------- *)
Between(s, a, b) == {x \in Joined(s) : {s.own[x[1]], s.own[x[2]]} = {a, b}}
(* the head: the word of the first wire that stays open, else of wire one    *)
HeadWord(s) == IF Free(s) = {} THEN IF Len(s.own) = 0 THEN 1 ELSE s.own[1] ELSE s.own[s.line[1]]
OneHead(s) == Cardinality({s.own[p] : p \in Free(s)}) <= 1
Edges(s) == {{x[1], x[2]} : x \in WordLinks(s)}
Connected(s) == Reach({HeadWord(s)}, WordLinks(s)) = 1..Len(s.words)
Acyclic(s) == Connected(s) /\ Cardinality(Edges(s)) = Len(s.words) - 1
                           /\ \A x \in WordLinks(s) : x[1] # x[2]
ParentIn(s, i) ==
  CHOOSE p \in 1..Len(s.words) :
    /\ {i, p} \in Edges(s) /\ p # i
    /\ HeadWord(s) \in Reach({p}, {x \in WordLinks(s) : {x[1], x[2]} # {i, p}})
WiresTo(s, i, p) == {w \in WordWires(s) : s.own[w] = i /\ \E x \in Between(s, i, p) : w \in {x[1], x[2]}}
Nested(s, i, p) == \A x, y \in Between(s, i, p) : ~Crosses(x, y)
TreeOf(s) == [i \in 1..Len(s.words) |->
                IF i = HeadWord(s) THEN [w |-> s.words[i], t |-> TypeOn(s, Free(s)), p |-> 0]
                ELSE LET p == ParentIn(s, i)
                     IN  [w |-> s.words[i], t |-> TypeOn(s, WiresTo(s, i, p)), p |-> p]]
=============================================================================
