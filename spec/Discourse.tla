------------------------------ MODULE Discourse ------------------------------
(* Text circuits (lambeq.experimental.discocirc): the circuit of a text given  *)
(* as one pregroup tree per sentence together with its coreference clusters.   *)
(*   tree   [w words, low the same in lower case, o position in the sentence,  *)
(*           t type (a sequence of [b base, z winding]), ch children]          *)
(*   text   [sents: Seq(tree), toks: Seq(Seq(word)), corefs: Seq(cluster)]     *)
(*          a cluster is, per sentence, the sequence of its positions          *)
(* A circuit is a list of steps, each taking named wires:                      *)
(*   state of an entity, splitting of an entity's wire for a sentence that     *)
(*   mentions it several times, a component on the wires of its mentions, and  *)
(*   the merging of the split wire.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Noun == <<[b |-> "n", z |-> 0]>>
Sent == <<[b |-> "s", z |-> 0]>>
None == 0 - 1      \* the position of an argument nobody was named for
Leaf(nd) == nd.t = Noun /\ nd.ch = <<>>
Args(t) == SelectSeq(t, LAMBDA x : x.z # 0)
NounArg(t) == \E k \in DOMAIN t : t[k].b = "n" /\ t[k].z \in {0 - 1, 1}

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ran(s) == {s[k] : k \in DOMAIN s}
Copies(x, n) == [k \in 1..n |-> x]

(* ---- rewriting of trees -------------------------------------------------- *)
(* a rule [any, t, words (<<>> = every word), depth (-1 = no limit), join]     *)
Joined(j, a, b) == IF j = "merge" THEN a \o b ELSE IF j = "first" THEN a ELSE b
Matches(r, nd) == /\ (r.any \/ nd.t = r.t) /\ Len(nd.ch) = 1 /\ nd.ch[1].t = nd.t
                  /\ (r.words = <<>> \/ nd.low \in Ran(r.words))
RECURSIVE Edit(_, _)
(* n the tree after the rule, m how many nodes its top word has swallowed      *)
Edit(r, nd) ==
  IF Matches(r, nd)
  THEN LET e == Edit(r, nd.ch[1])
       IN  IF r.depth < 0 \/ e.m < r.depth
           THEN [n |-> [e.n EXCEPT !.w = Joined(r.join, nd.w, e.n.w), !.low = Joined(r.join, nd.low, e.n.low)], m |-> e.m + 1]
           ELSE [n |-> [nd EXCEPT !.ch = <<e.n>>], m |-> e.m]
  ELSE [n |-> [nd EXCEPT !.ch = [k \in DOMAIN nd.ch |-> Edit(r, nd.ch[k]).n]], m |-> 0]
RECURSIVE Rewritten(_, _)
Rewritten(rs, nd) == IF rs = <<>> THEN nd ELSE Rewritten(Tail(rs), Edit(Head(rs), nd).n)

(* a sentence with a wire left over is given an anonymous noun                 *)
Closed(nd, len) == IF nd.t \in {Noun, Sent} THEN nd
                   ELSE [nd EXCEPT !.t = Sent, !.ch = Append(nd.ch, [w |-> <<>>, low |-> <<>>, o |-> len, t |-> Noun, ch |-> <<>>])]

(* ---- entities ------------------------------------------------------------ *)
Mentions(cl) == {<<i, j>> \in (DOMAIN cl) \X (0..200) : j \in Ran(cl[i])}
ClusterOf(x, i, j) == {k \in DOMAIN x.corefs : i \in DOMAIN x.corefs[k] /\ j \in Ran(x.corefs[k][i])}
Least(S) == CHOOSE k \in S : \A h \in S : k <= h
FirstMention(cl) == LET i == Least({h \in DOMAIN cl : cl[h] # <<>>}) IN <<i, cl[i][1]>>
Entity(x, i, j) == IF ClusterOf(x, i, j) = {} THEN <<i, j>> ELSE FirstMention(x.corefs[Least(ClusterOf(x, i, j))])
RECURSIVE Positions(_)
Positions(nd) == {nd.o} \cup UNION {Positions(nd.ch[k]) : k \in DOMAIN nd.ch}
(* the mentions of an entity                                                   *)
All(x) == {<<i, j>> \in (DOMAIN x.toks) \X (0..200) : j < Len(x.toks[i])}
Known(x) == {m \in All(x) : ClusterOf(x, m[1], m[2]) # {}}
Same(x, e) == {m \in All(x) : Entity(x, m[1], m[2]) = e}
(* an entity is left out when one of its names is to be pruned, or when it is  *)
(* mentioned too rarely                                                        *)
PrunedEntity(x, e, o) ==
  \/ \E m \in Same(x, e) : x.toks[m[1]][m[2] + 1] \in Ran(o.pruned)
  \/ \E m \in Known(x) : Entity(x, m[1], m[2]) = e /\ Cardinality({k \in Known(x) : Entity(x, k[1], k[2]) = e}) < o.freq
Pruned(x, o, i) == {j \in 0..(Len(x.toks[i]) - 1) : PrunedEntity(x, Entity(x, i, j), o)}

(* ---- a sentence as one (nested) box -------------------------------------- *)
RECURSIVE Nouns(_, _)
Nouns(nd, pr) == IF Leaf(nd) THEN (IF nd.o \in pr THEN <<>> ELSE <<[id |-> nd.o, w |-> nd.w]>>)
                 ELSE Flat([k \in DOMAIN nd.ch |-> Nouns(nd.ch[k], pr)])
(* a word without any wire is left out together with what it is applied to     *)
Floating(nd, pr) == Nouns(nd, pr) = <<>> /\ Args(nd.t) = <<>>
RECURSIVE Shape(_, _)
Shape(nd, pr) ==
  LET inner == SelectSeq(nd.ch, LAMBDA k : ~Leaf(k) /\ ~Floating(k, pr))
  IN  [w |-> nd.w, nouns |-> Len(Nouns(nd, pr)), args |-> [k \in DOMAIN Args(nd.t) |-> Args(nd.t)[k].b],
       comps |-> [k \in DOMAIN inner |-> Shape(inner[k], pr)]]

(* ---- a sentence as a sandwich of boxes ----------------------------------- *)
RECURSIVE Sandwich(_, _, _, _), Fillings(_, _, _, _, _)
Has(nouns, id) == \E k \in DOMAIN nouns : nouns[k].id = id
Fresh(old, new) == SelectSeq(new, LAMBDA q : ~Has(old, q.id))
Fillings(kids, acc, pr, lb, dummy) ==
  IF kids = <<>> THEN acc
  ELSE LET s == Sandwich(Head(kids), acc.cur, pr, lb)
       IN  Fillings(Tail(kids),
                    [nouns |-> acc.nouns \o Fresh(acc.nouns, s.nouns),
                     subs |-> IF s.ops = <<>> THEN acc.subs ELSE Append(acc.subs, s.ops),
                     cur |-> IF Head(kids).t = Noun THEN s.cur ELSE acc.cur],
                    pr, lb, dummy)
Sandwich(nd, prev, pr, lb) ==
  IF Leaf(nd) THEN (IF nd.o \in pr THEN [ops |-> <<>>, nouns |-> <<>>, cur |-> prev]
                    ELSE [ops |-> <<>>, nouns |-> <<[id |-> nd.o, w |-> nd.w]>>, cur |-> nd.o])
  ELSE LET own == IF NounArg(nd.t) /\ (prev # None \/ pr = {}) THEN <<[id |-> prev, w |-> <<>>]>> ELSE <<>>
           f == Fillings(nd.ch, [nouns |-> own, subs |-> <<>>, cur |-> prev], pr, lb, 0)
           ids == [k \in DOMAIN f.nouns |-> f.nouns[k].id]
           n == Len(f.subs)
           bread(k) == <<[w |-> nd.w, sfx |-> IF ~lb \/ n = 0 THEN "" ELSE IF k = 0 THEN "top" ELSE IF k = n THEN "bottom" ELSE ToString(k), ids |-> ids, comps |-> <<>>]>>
       IN  IF f.nouns = <<>> THEN [ops |-> <<>>, nouns |-> <<>>, cur |-> f.cur]
           ELSE [ops |-> bread(0) \o Flat([k \in 1..n |-> f.subs[k] \o bread(k)]), nouns |-> f.nouns, cur |-> f.cur]

(* ---- a sentence: its nouns in order and its components ------------------- *)
Sentence(x, o, i) ==
  LET t == Rewritten(o.rules, Closed(x.sents[i], Len(x.toks[i])))
      pr == Pruned(x, o, i)
      s == Sandwich(t, None, pr, o.labels)
      ns == Nouns(t, pr)
  IN  IF o.sandwich THEN [nouns |-> s.nouns, ops |-> s.ops]
      ELSE [nouns |-> ns,
            ops |-> IF Leaf(t) \/ Floating(t, pr) THEN <<>>
                    ELSE <<[w |-> t.w, sfx |-> "", ids |-> [k \in DOMAIN ns |-> ns[k].id], comps |-> Shape(t, pr).comps]>>]

(* ---- the text ------------------------------------------------------------ *)
(* the wire of a noun of sentence i; anonymous nouns are entities of their own *)
Who(x, i, id) == IF id = None \/ id >= Len(x.toks[i]) THEN <<i, id>> ELSE Entity(x, i, id)
RECURSIVE Occurrence(_, _, _, _)
Occurrence(x, i, nouns, k) == Cardinality({h \in 1..k : Who(x, i, nouns[h].id) = Who(x, i, nouns[k].id)})
(* the steps of sentence i when the entities in old have a wire already        *)
Steps(x, o, i, old) ==
  LET s == Sentence(x, o, i)
      ents == [k \in DOMAIN s.nouns |-> Who(x, i, s.nouns[k].id)]
      first == SelectSeq([k \in DOMAIN ents |-> k], LAMBDA k : Occurrence(x, i, s.nouns, k) = 1)
      count(e) == Cardinality({k \in DOMAIN ents : ents[k] = e})
      many == SelectSeq(first, LAMBDA k : count(ents[k]) > 1)
      news == SelectSeq(first, LAMBDA k : ents[k] \notin Ran(old))
      (* which mention a position stands for; several mentions of one token are taken in turn *)
      at(id) == Least({k \in DOMAIN s.nouns : s.nouns[k].id = id})
      leg(id) == <<ents[at(id)], Occurrence(x, i, s.nouns, at(id))>>
      direct(op) == IF o.sandwich THEN [k \in DOMAIN op.ids |-> leg(op.ids[k])]
                    ELSE [k \in DOMAIN ents |-> <<ents[k], Occurrence(x, i, s.nouns, k)>>]
  IN  [steps |-> [k \in DOMAIN news |-> [a |-> "state", e |-> ents[news[k]], w |-> s.nouns[news[k]].w]]
                 \o [k \in DOMAIN many |-> [a |-> "split", e |-> ents[many[k]], n |-> count(ents[many[k]])]]
                 \o [k \in DOMAIN s.ops |-> [a |-> "op", w |-> s.ops[k].w, sfx |-> s.ops[k].sfx, legs |-> direct(s.ops[k]), comps |-> s.ops[k].comps]]
                 \o [k \in DOMAIN many |-> [a |-> "merge", e |-> ents[many[k]], n |-> count(ents[many[k]])]],
       ents |-> old \o [k \in DOMAIN news |-> ents[news[k]]]]
RECURSIVE Upto(_, _, _)
Upto(x, o, i) == IF i = 0 THEN [steps |-> <<>>, ents |-> <<>>]
                 ELSE LET p == Upto(x, o, i - 1) q == Steps(x, o, i, p.ents)
                      IN  [steps |-> p.steps \o q.steps, ents |-> q.ents]
Circuit(x, o) == Upto(x, o, Len(x.sents))
=============================================================================
