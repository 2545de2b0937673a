------------------------------ MODULE P17Model ------------------------------
(* Linear readers of every small configuration over every sentence length:  *)
(* a reading that ends has all words, once, in order, and one output wire.  *)
EXTENDS Readers, Json
CONSTANTS MaxWords
VARIABLES k, cfg
S == <<<<"s", 0>>>>
T == <<<<"t", 0>>>>
Start(n) == IF n = 0 THEN D!IdD(<<>>) ELSE IF n = 1 THEN D!BoxD(WordB("START", S)) ELSE D!BoxD(WordB("START", S \o T))
WTypes == {S, D!TyR(S) \o S, T \o S, <<>>}
B(a, b) == D!BoxD(D!MkBox("box", "B", a, b, 0))
Combs == {B(S \o S, S), B(S \o S \o S, S), D!BoxD(D!MkCup(S, D!TyR(S), FALSE)), B(S \o D!TyR(S) \o S, S),
          D!BoxD(D!MkSpider(S, 2, 1)), B(S \o T, S), B(T \o S \o T, T), B(S \o T \o S, S \o T),
          D!ThenD(B(S \o S, T), B(T, S)), B(S \o S, <<>>)}
Cfgs == [start : 0..2, wt : WTypes, comb : Combs]
Words(n) == [i \in 1..n |-> <<"la", "bo", "la", "ke", "su", "w6", "w7">>[i]]
Init == k = 0 /\ cfg \in Cfgs
Next == k < MaxWords /\ k' = k + 1 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<k, cfg>>
X == LinearD(Start(cfg.start), cfg.comb, Words(k), cfg.wt)
NamesOf(d) == LET bs == SelectSeq(D!RealBoxes(d), LAMBDA b : b.k = "word") IN [i \in 1..Len(bs) |-> bs[i].n]
Good == X.ok => /\ D!WellTyped(X.d) /\ X.d.dom = <<>> /\ Len(X.d.cod) <= 1
                /\ NamesOf(X.d) = (IF cfg.start = 0 THEN <<>> ELSE <<"START">>) \o Words(k)
(* every wire of every word is used: nothing falls off                       *)
Shapes == LET sp == SpidersD(Words(k), S) IN D!WellTyped(sp) /\ sp.cod = S /\ Cardinality(D!Wiring(sp).links) = 1
Emit == PrintT("@@RUN|" \o ToJson([k |-> k, start |-> Start(cfg.start), wt |-> cfg.wt, comb |-> cfg.comb, ok |-> X.ok]))
=============================================================================
