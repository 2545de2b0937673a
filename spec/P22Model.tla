------------------------------ MODULE P22Model ------------------------------
(* All small pregroup sentences: words, then cups and swaps.  Drawn plainly,   *)
(* following the lines finds the wiring (so the reading of pictures is right); *)
(* every sentence is replayed into the library's printer.                      *)
EXTENDS Text, TLC, Json
CONSTANTS Lexicon, MaxWords, MaxSwaps
VARIABLES words, line, ops, places
vars == <<words, line, ops, places>>
Lex == <<(* n *) <<<<"n", 0>>>>, (* n.r s *) <<<<"n", 1>>, <<"s", 0>>>>, (* s.l n *) <<<<"s", 0 - 1>>, <<"n", 0>>>>,
         (* pp *) <<<<"pp", 0>>>>, (* n *) <<<<"n", 0>>, <<"n", 1>>, <<"n", 2>>>>, <<>>>>
Ty(k) == Lex[k]
AllTy == Cat([k \in 1..Len(words) |-> Ty(words[k])])
N == Len(AllTy)
Init == /\ words \in UNION {[1..m -> Lexicon] : m \in 1..MaxWords}
        /\ line = [k \in 1..Len(Cat([j \in 1..Len(words) |-> Ty(words[j])])) |-> k]
        /\ ops = <<>> /\ places = [k \in 1..Len(line) |-> k]
Cancel(a, b) == AllTy[a][1] = AllTy[b][1] /\ AllTy[b][2] - AllTy[a][2] = 1
CupAt(i) == /\ Cancel(line[i], line[i + 1])
            /\ ops' = Append(ops, [k |-> "cup", at |-> i - 1, a |-> line[i], b |-> line[i + 1],
                                   pa |-> places[i], pb |-> places[i + 1], live |-> Range(places)])
            /\ line' = Splice(line, i - 1, 2, <<>>) /\ places' = Splice(places, i - 1, 2, <<>>)
SwapAt(i) == /\ Cardinality({j \in 1..Len(ops) : ops[j].k = "swap"}) < MaxSwaps
             /\ (IF ops = <<>> THEN TRUE ELSE ops[Len(ops)].k # "swap" \/ ops[Len(ops)].at # i - 1)
             /\ ops' = Append(ops, [k |-> "swap", at |-> i - 1, a |-> line[i], b |-> line[i + 1],
                                    pa |-> places[i], pb |-> places[i + 1], live |-> Range(places)])
             /\ line' = Splice(line, i - 1, 2, <<line[i + 1], line[i]>>) /\ UNCHANGED places
Next == UNCHANGED words /\ \E i \in 1..(Len(line) - 1) : CupAt(i) \/ SwapAt(i)
Spec == Init /\ [][Next]_vars

(* the run of the sentence and its plain drawing                             *)
AsRun == [line |-> line, own |-> Cat([j \in 1..Len(words) |-> [k \in 1..Len(Ty(words[j])) |-> j]]), ty |-> AllTy,
          words |-> words, links |-> {<<ops[j].a, ops[j].b>> : j \in {j \in 1..Len(ops) : ops[j].k = "cup"}},
          mates |-> {}, ok |-> TRUE]
RECURSIVE Rows(_, _)
Rows(q, plain) ==
  IF q = <<>> THEN <<>>
  ELSE LET o == Head(q) IN
       (IF o.k = "cup" THEN <<CupRow(2 * N, o.live, o.pa, o.pb)>> ELSE SwapRows(2 * N, o.live, o.pa, o.pb, plain))
       \o Rows(Tail(q), plain)
LawDrawn == \A plain \in BOOLEAN : Shows(Rows(ops, plain), [p \in 1..N |-> Col(p)], AsRun) = {}
Emit == PrintT("@@RUN|" \o ToJson([words |-> [j \in 1..Len(words) |-> Ty(words[j])],
                                   ops |-> [j \in 1..Len(ops) |-> [k |-> ops[j].k, at |-> ops[j].at]]]))
=============================================================================
