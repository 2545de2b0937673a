------------------------------ MODULE P16Trace ------------------------------
(* Recorded conversions between trees and diagrams.  A recorded tree is a    *)
(* list of nodes [i, w, t, p]: word, name, type, place of the parent in the  *)
(* list (0: none).                                                           *)
EXTENDS Pregroup, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l

AsTree(ns) == [i \in 1..Len(ns) |->
                 LET k == CHOOSE k \in 1..Len(ns) : ns[k].i = i
                 IN  [w |-> ns[k].w, t |-> ns[k].t, p |-> IF ns[k].p = 0 THEN 0 ELSE ns[ns[k].p].i]]
EachOnce(ns, n) == Len(ns) = n /\ {ns[k].i : k \in 1..Len(ns)} = 1..n
Pair(ns, k) == {ns[k].i, ns[ns[k].p].i}
Kids(ns) == {k \in 1..Len(ns) : ns[k].p # 0}
SameTypes(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Cardinality({k \in 1..Len(a) : a[k] = x}) = Cardinality({k \in 1..Len(b) : b[k] = x})
(* the type a node yields to its parent                                      *)
TypeRight(s, i, p, t) == LET u == TypeOn(s, WiresTo(s, i, p))
                         IN  IF i = p THEN 2 * Len(t) = Len(u)
                             ELSE IF Nested(s, i, p) THEN t = u ELSE SameTypes(t, u)

(* a tree made into a diagram                                                *)
Drawn(tr, e) ==
  IF ~e.ok THEN {"refused"}
  ELSE LET s == Run(e.d)
           n == Len(tr)
           nr == {i \in 1..n : tr[i].p # 0}
       IN  IF ~s.ok THEN {"ill-typed"}
           ELSE IF s.words # [i \in 1..n |-> tr[i].w] THEN {"words"}
           ELSE UNION {
             IF e.d.cod # tr[Root(tr)].t THEN {"output"} ELSE {},
             IF \A p \in Free(s) : s.own[p] = Root(tr) THEN {} ELSE {"output-of-another-word"},
             IF Edges(s) = {{i, tr[i].p} : i \in {i \in nr : tr[i].t # <<>>}} THEN {} ELSE {"links"},
             IF \A i \in nr : TypeOn(s, WiresTo(s, i, tr[i].p)) = tr[i].t /\ Nested(s, i, tr[i].p)
               THEN {} ELSE {"type-of-link"},
             IF \A i \in 1..n : Cardinality({p \in WordWires(s) : s.own[p] = i}) = Len(WordType(tr, i)) THEN {} ELSE {"wires"}}

(* a diagram made into a tree                                                *)
ReadOf(e) ==
  LET s == Run(e.d)
      n == Len(s.words)
  IN  IF ~s.ok THEN {"not-a-sentence"}
      ELSE IF ~OneHead(s) THEN IF e.ok THEN {"several-heads-accepted"} ELSE {}
      ELSE IF ~Connected(s) THEN {}
      ELSE IF ~e.ok THEN {"refused"}
      ELSE LET ns == e.nodes
               rs == {k \in 1..Len(ns) : ns[k].p = 0}
           IN  IF Cardinality(rs) # 1 THEN {"roots"} ELSE LET r == CHOOSE k \in rs : TRUE IN
               UNION {
                 IF ns[r].i # HeadWord(s) THEN {"root"} ELSE {},
                 IF ~SameTypes(ns[r].t, TypeOn(s, Free(s))) \/ (s.mates = {} /\ ns[r].t # e.d.cod) THEN {"root-type"} ELSE {},
                 IF {ns[k].i : k \in 1..Len(ns)} # 1..n THEN {"words-missing"} ELSE {},
                 IF \A k \in 1..Len(ns) : ns[k].i \in 1..n /\ ns[k].w = s.words[ns[k].i] THEN {} ELSE {"names"},
                 IF (Acyclic(s) \/ e.brk) /\ Len(ns) # n THEN {"word-twice"} ELSE {},
                 IF \A k \in Kids(ns) : Pair(ns, k) \in Edges(s) THEN {} ELSE {"link-invented"},
                 IF e.brk \/ \A x \in Edges(s) : Cardinality({k \in Kids(ns) : Pair(ns, k) = x}) = 1
                   THEN {} ELSE {"link-lost-or-twice"},
                 IF \A k \in Kids(ns) : Pair(ns, k) \in Edges(s) => TypeRight(s, ns[k].i, ns[ns[k].p].i, ns[k].t)
                   THEN {} ELSE {"type-of-link"},
                 IF Acyclic(s) /\ EachOnce(ns, n) /\ (\A k \in Kids(ns) : Nested(s, ns[k].i, ns[ns[k].p].i))
                    /\ s.mates = {} /\ AsTree(ns) # TreeOf(s) THEN {"another-tree"} ELSE {}}

(* a tree from the account of a parser: types and parents of every word      *)
Built(e) ==
  IF ~e.ok THEN {"refused"}
  ELSE LET want == {<<i, k>> : i \in 1..Len(e.words), k \in 1..3} \cap {<<i, k>> \in (1..Len(e.words)) \X (1..3) : k <= Len(e.parents[i])}
           ns == e.nodes
           par(k) == IF ns[k].p = 0 THEN 0 ELSE ns[ns[k].p].i
       IN  UNION {
         IF Len(ns) = Cardinality(want) THEN {} ELSE {"nodes"},
         IF \A x \in want : Cardinality({k \in 1..Len(ns) : ns[k].i = x[1] /\ par(k) = e.parents[x[1]][x[2]]}) = 1 THEN {} ELSE {"parents"},
         IF \A x \in want : \A k \in 1..Len(ns) : (ns[k].i = x[1] /\ par(k) = e.parents[x[1]][x[2]])
              => ns[k].t = e.types[x[1]][x[2]] /\ ns[k].w = e.words[x[1]] THEN {} ELSE {"types"}}

(* what a tree tells about itself                                            *)
RECURSIVE Height(_, _), DepthIn(_, _)
Height(tr, i) == 1 + (IF Children(tr, i) = {} THEN 0 ELSE LET H == {Height(tr, k) : k \in Children(tr, i)} IN CHOOSE h \in H : \A g \in H : g <= h)
DepthIn(tr, i) == IF tr[i].p = 0 THEN 0 ELSE 1 + DepthIn(tr, tr[i].p)
Asked(tr, e) ==
  LET n == Len(tr) IN
  IF ~e.ok THEN {"refused"} ELSE UNION {
    IF e.words # [i \in 1..n |-> tr[i].w] THEN {"words"} ELSE {},
    IF e.parents # [i \in 1..n |-> <<tr[i].p>>] THEN {"parents"} ELSE {},
    IF e.types # [i \in 1..n |-> <<tr[i].t>>] THEN {"types"} ELSE {},
    IF e.indices # [i \in 1..n |-> i] THEN {"indices"} ELSE {},
    IF e.heights # [i \in 1..n |-> Height(tr, i)] THEN {"height"} ELSE {},
    IF e.depths # [i \in 1..n |-> DepthIn(tr, i)] THEN {"depth"} ELSE {},
    IF e.roots # [i \in 1..n |-> Root(tr)] THEN {"root"} ELSE {},
    IF e.eqs # [i \in 1..Len(e.eqs) |-> e.same[i]] THEN {"equality"} ELSE {}}
(* two adjacent words of one type merged into one                            *)
Merged(tr, e) ==
  LET i == e.at
      ks == Children(tr, i)
      can == Cardinality(ks) = 1 /\ LET k == CHOOSE k \in ks : TRUE
                                    IN  tr[k].t = tr[i].t /\ (k - i) \in {1, 0 - 1}
  IN  IF ~e.ok THEN {"refused"}
      ELSE IF ~can THEN IF EachOnce(e.nodes, Len(tr)) /\ AsTree(e.nodes) = tr THEN {} ELSE {"changed"}
      ELSE LET k == CHOOSE k \in ks : TRUE
               lo == IF i < k THEN i ELSE k
               hi == IF i < k THEN k ELSE i
               ns == e.nodes
               at(j) == IF j = k THEN lo ELSE IF j = i THEN lo ELSE j
           IN  IF Len(ns) = Len(tr) - 1 /\ \A j \in (1..Len(tr)) \ {k} :
                    \E m \in 1..Len(ns) : /\ ns[m].i = at(j) /\ ns[m].t = tr[j].t
                                          /\ ns[m].w = (IF j = i THEN tr[lo].w \o " " \o tr[hi].w ELSE tr[j].w)
                                          /\ (IF ns[m].p = 0 THEN 0 ELSE ns[ns[m].p].i)
                                             = (IF tr[j].p = 0 THEN 0 ELSE at(tr[j].p))
               THEN {} ELSE {"wrong"}

Bad(x, e) == CASE e.op = "draw" -> Drawn(x.tree, e)
               [] e.op = "read" -> ReadOf(e)
               [] e.op = "back" -> IF ~e.ok THEN {"refused"}
                                   ELSE IF ~(EachOnce(e.nodes, Len(x.tree)) /\ AsTree(e.nodes) = x.tree) THEN {"another-tree"}
                                   ELSE IF ~e.eq THEN {"not-equal"} ELSE {}
               [] e.op = "build" -> Built(e)
               [] e.op = "ask" -> Asked(x.tree, e)
               [] e.op = "merge" -> Merged(x.tree, e)
               [] OTHER -> {"unknown"}
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
