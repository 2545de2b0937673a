------------------------------ MODULE P23Model ------------------------------
(* Small texts, read sentence by sentence.  A sentence is one of a few trees   *)
(* over the nouns A and B; clusters and options range freely.                  *)
EXTENDS Discourse, Json
CONSTANTS MaxSents, Heads, Freqs, MaxNouns
VARIABLES txt, opt, i, ents, log
vars == <<txt, opt, i, ents, log>>

Nd(w, o, t, ch) == [w |-> <<w>>, low |-> <<w>>, o |-> o, t |-> t, ch |-> ch]
Verb == <<[b |-> "n", z |-> 1], [b |-> "s", z |-> 0]>>
(* trees with their tokens                                                     *)
Shapes(a, b) ==
  {[k |-> "bare", t |-> Nd(a, 0, Noun, <<>>), toks |-> <<a>>],
   [k |-> "runs", t |-> Nd("runs", 1, Sent, <<Nd(a, 0, Noun, <<>>)>>), toks |-> <<a, "runs">>],
   [k |-> "rains", t |-> Nd("rains", 0, Sent, <<>>), toks |-> <<"rains">>],
   [k |-> "likes", t |-> Nd("likes", 1, Sent, <<Nd(a, 0, Noun, <<>>), Nd(b, 2, Noun, <<>>)>>), toks |-> <<a, "likes", b>>],
   [k |-> "often", t |-> Nd("often", 1, Sent, <<Nd(a, 0, Noun, <<>>), Nd("likes", 2, Verb, <<Nd(b, 3, Noun, <<>>)>>)>>), toks |-> <<a, "often", "likes", b>>],
   [k |-> "says", t |-> Nd("says", 1, Sent, <<Nd(a, 0, Noun, <<>>), Nd("helps", 2, Sent, <<Nd(b, 3, Noun, <<>>), Nd("the", 4, Noun, <<Nd(a, 5, Noun, <<>>)>>)>>)>>),
    toks |-> <<a, "says", "helps", b, "the", a>>],
   [k |-> "help", t |-> Nd("help", 0, Verb, <<Nd(b, 1, Noun, <<>>)>>), toks |-> <<"help", b>>]}
All2 == UNION {Shapes(a, b) : a \in {"A", "B"}, b \in {"A", "B"}}
RECURSIVE LeavesOf(_)
LeavesOf(nd) == IF Leaf(nd) THEN {nd.o} ELSE UNION {LeavesOf(nd.ch[k]) : k \in DOMAIN nd.ch}
MentionsOf(ss) == UNION {{<<h, j>> : j \in LeavesOf(ss[h].t)} : h \in DOMAIN ss}
(* one cluster that joins some of the mentions, then every mention by itself   *)
Sorted(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A p, q \in DOMAIN f : p < q => f[p] < f[q]
Cluster(ss, M) == [h \in DOMAIN ss |-> LET J == {j \in 0..9 : <<h, j>> \in M} IN IF J = {} THEN <<>> ELSE Sorted(J)]
RECURSIVE Alone(_, _)
Alone(ss, M) == IF M = {} THEN <<>> ELSE LET m == CHOOSE m \in M : TRUE IN <<Cluster(ss, {m})>> \o Alone(ss, M \ {m})
Rule(t, ws) == [any |-> FALSE, t |-> t, words |-> ws, depth |-> 1, join |-> "last"]
Texts == {ss \in UNION {[1..k -> {s \in All2 : s.k \in Heads}] : k \in 1..MaxSents} : Cardinality(MentionsOf(ss)) <= MaxNouns}

Init == /\ \E ss \in Texts : \E M \in SUBSET MentionsOf(ss) :
             /\ Cardinality(M) # 1
             /\ txt = [sents |-> [k \in DOMAIN ss |-> ss[k].t], toks |-> [k \in DOMAIN ss |-> ss[k].toks],
                       corefs |-> (IF M = {} THEN <<>> ELSE <<Cluster(ss, M)>>) \o Alone(ss, MentionsOf(ss))]
        /\ \E pr \in {<<>>, <<"A">>} : \E f \in Freqs : \E sw \in BOOLEAN :
             opt = [sandwich |-> sw, labels |-> TRUE, pruned |-> pr, freq |-> f, rules |-> <<Rule(Noun, <<<<"the">>>>)>>]
        /\ i = 0 /\ ents = <<>> /\ log = <<>>
Read == /\ i < Len(txt.sents)
        /\ LET q == Steps(txt, opt, i + 1, ents)
           IN  ents' = q.ents /\ log' = Append(log, q.steps)
        /\ i' = i + 1 /\ UNCHANGED <<txt, opt>>
Spec == Init /\ [][Read]_vars

ToOp(st) == SelectSeq(st, LAMBDA p : p.a = "op")
Named(e) == e[2] # None /\ e[2] < Len(txt.toks[e[1]])
Touched(h) == UNION {{g[1] : g \in Ran(p.legs)} : p \in Ran(ToOp(log[h]))}
LeafMentions == {<<h, j>> : h \in 1..i, j \in 0..9} \cap UNION {{<<h, j>> : j \in LeavesOf(txt.sents[h])} : h \in 1..i}
KeptEntities == {Entity(txt, m[1], m[2]) : m \in {q \in LeafMentions : ~PrunedEntity(txt, Entity(txt, q[1], q[2]), opt)}}
(* one wire per entity, and one for every entity that is kept                  *)
LawOneWire == /\ \A p, q \in DOMAIN ents : ents[p] = ents[q] => p = q
              /\ {e \in Ran(ents) : Named(e)} = KeptEntities
(* what is pruned is not named anywhere                                        *)
LawPruned == \A h \in DOMAIN log : \A p \in Ran(log[h]) : p.a = "state" => Ran(p.w) \cap Ran(opt.pruned) = {}
(* a component is on the wires of what its sentence mentions, and together the *)
(* components of a sentence are on all of these                                *)
LawThreaded == \A h \in DOMAIN log :
  LET kept == {Entity(txt, h, j) : j \in {q \in LeavesOf(txt.sents[h]) : ~PrunedEntity(txt, Entity(txt, h, q), opt)}}
      named == {e \in Touched(h) : Named(e)}
  IN  (ToOp(log[h]) # <<>> => named = kept) /\ (\A e \in Touched(h) : ~Named(e) => e[1] = h)
(* a wire is split for exactly as many legs as the sentence mentions it        *)
LawSplit == \A h \in DOMAIN log : \A p \in Ran(log[h]) : p.a = "split" =>
              /\ p.n >= 2 /\ \E q \in Ran(log[h]) : q.a = "merge" /\ q.e = p.e /\ q.n = p.n
              /\ p.n = Cardinality({j \in LeavesOf(txt.sents[h]) : Entity(txt, h, j) = p.e})
(* the wires do not depend on the form                                         *)
LawForms == LET other == Upto(txt, [opt EXCEPT !.sandwich = ~@], i).ents
            IN  SelectSeq(ents, Named) = SelectSeq(other, Named)
(* leaving out more never brings anything in                                   *)
LawMonotone == LET fewer == Upto(txt, [opt EXCEPT !.freq = @ + 1], i).ents
               IN  {e \in Ran(fewer) : Named(e)} \subseteq Ran(ents)
(* a sentence without a verb leaves the wires alone; otherwise the first       *)
(* component is on all the legs                                                *)
LawTop == \A h \in DOMAIN log : LET ops == ToOp(log[h]) IN
            ops # <<>> => \A p \in Ran(ops) : Ran(p.legs) \subseteq Ran(ops[1].legs)
Emit == i = Len(txt.sents) => PrintT("@@RUN|" \o ToJson([txt |-> txt, opt |-> opt]))
=============================================================================
