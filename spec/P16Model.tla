------------------------------ MODULE P16Model ------------------------------
(* Trees grown node by node: first the root, then any word that is not yet   *)
(* in the tree as a dependent of one that is.                                *)
EXTENDS Pregroup, TLC, Json
CONSTANTS N, Types
VARIABLES tr, used
TypeSet == CASE Types = "two" -> {<<<<"n", 0>>>>, <<<<"n", 1>>, <<"s", 0>>>>}
             [] OTHER -> {<<<<"n", 0>>>>, <<<<"s", 0>>>>, <<<<"n", 1>>, <<"s", 0>>>>}
RootTypes == TypeSet \cup {<<>>}
Name(i) == <<"u", "v", "u", "x", "y", "z">>[i]
Init == used = {} /\ \E n \in 1..N : tr = [i \in 1..n |-> [w |-> Name(i), t |-> <<>>, p |-> 0]]
Max1(S) == CHOOSE x \in S : \A y \in S : y <= x
(* nodes join in increasing order of (depth, number), so a tree comes once   *)
RECURSIVE Depth(_)
Depth(i) == IF tr[i].p = 0 THEN 0 ELSE 1 + Depth(tr[i].p)
Later(i, p) == \A u \in used : Depth(u) < Depth(p) + 1 \/ (Depth(u) = Depth(p) + 1 /\ u < i)
Plant == used = {} /\ \E i \in 1..Len(tr), t \in RootTypes : tr' = [tr EXCEPT ![i].t = t] /\ used' = {i}
Attach == used # {} /\ \E i \in (1..Len(tr)) \ used, p \in used, t \in TypeSet :
             Later(i, p) /\ tr' = [tr EXCEPT ![i].t = t, ![i].p = p] /\ used' = used \cup {i}
Next == Plant \/ Attach
Spec == Init /\ [][Next]_<<tr, used>>
Done == used = 1..Len(tr)
S == SentenceOf(tr)
(* laws                                                                      *)
Trees == Done => IsTree(tr)
WellTyped == Done => \A x \in S.links : S.ty[x[1]][1] = S.ty[x[2]][1] /\ S.ty[x[2]][2] = S.ty[x[1]][2] + 1
EveryWire == Done => /\ \A p \in WordWires(S) : Cardinality(Touching(S.links, p)) = (IF p \in Range(S.line) THEN 0 ELSE 1)
                     /\ TypesOf(S) = tr[Root(tr)].t
OneLink == Done => /\ Edges(S) = {{i, tr[i].p} : i \in {i \in 1..Len(tr) : tr[i].p # 0}}
                   /\ \A i \in 1..Len(tr) : tr[i].p # 0 => Cardinality(Between(S, i, tr[i].p)) = Len(tr[i].t) /\ Nested(S, i, tr[i].p)
Planar == Done /\ Projective(tr) => \A x, y \in S.links : ~Crosses(x, y)
Back == Done /\ (tr[Root(tr)].t # <<>> \/ (Len(S.own) > 0 /\ HeadWord(S) = Root(tr))) => Acyclic(S) /\ TreeOf(S) = tr
Emit == Done => PrintT("@@RUN|" \o ToJson(tr))
=============================================================================
