------------------------------ MODULE P15Model ------------------------------
(* Every short sentence over a lexicon that touches every rule, under every *)
(* choice of rule list: what the rules do is well typed, keeps the ends and  *)
(* every word that is not a target.  Each (sentence, rules) pair is printed  *)
(* and replayed.                                                            *)
EXTENDS Rewriting, Json
CONSTANTS MaxWords, PairRules
VARIABLES words, rules
vars == <<words, rules>>
W(n, t) == MkBox("word", n, <<>>, t, 0)
N2 == TN \o TN
Lex == {W("we", TN), W("run", Vp), W("see", Over(Vp, TN)), W("The", Over(TN, TN)), W("old", Over(TN, TN)),
        W("Will", Over(Vp, Vp)), W("never", Over(Vp, Vp)), W("fast", Under(Vp, Vp)),
        W("in", Under(Vp, Over(Vp, TN))), W("That", Over(TS, TS)), W("and", Over(TS, TS)),
        W("that", <<RR(AtN), AtN, <<"n", -2>>, LL(AtS)>>), W("who", <<RR(AtN), AtN, LL(AtS), AtN>>),
        W("and", <<RR(AtN), AtN, LL(AtN)>>), W("and", TyR(Vp) \o Vp \o TyL(Vp)), W("and", <<RR(AtN), AtN, <<"n", -2>>>>),
        W("the", TN), W("left", <<LL(AtN)>>), W("both", <<RR(AtN), LL(AtN)>>)}
Low == [x \in {"The", "Will", "That"} |-> CASE x = "The" -> "the" [] x = "Will" -> "will" [] OTHER -> "that"]
AllNames == {w.n : w \in Lex} \cup UNION {{Builtin(r).words[i] : i \in 1..Len(Builtin(r).words)} :
                                          r \in Available \ {"curry"}}
LowAll == [x \in AllNames |-> IF x \in DOMAIN Low THEN Low[x] ELSE x]
RuleLists == {<<>>, Defaults} \cup {<<r>> : r \in Available} \cup
             (IF PairRules THEN {<<a, b>> : a \in Available, b \in Available} ELSE {<<"preadverb", "auxiliary">>, <<"curry", "determiner">>})
Sentence == FoldLeft(LAMBDA acc, w : TensorD(acc, BoxD(w)), IdD(<<>>), words)
RECURSIVE Reduce(_)
Reduce(d) ==
  LET can == {i \in 1..(Len(d.cod) - 1) : d.cod[i][1] = d.cod[i + 1][1] /\ d.cod[i + 1][2] = d.cod[i][2] + 1}
  IN  IF can = {} THEN d
      ELSE LET i == CHOOSE x \in can : \A y \in can : x <= y
           IN  Reduce(ThenAt(d, BoxD(MkCup(<<d.cod[i]>>, <<d.cod[i + 1]>>, FALSE)), i - 1))
Init == words = <<>> /\ rules \in RuleLists
Next == /\ Len(words) < MaxWords
        /\ \E w \in Lex : words' = Append(words, w)
        /\ UNCHANGED rules
Spec == Init /\ [][Next]_vars
Rs == [i \in 1..Len(rules) |-> Builtin(rules[i])]
Hit(w) == \E i \in 1..Len(Rs) : Matches(Rs[i], w, LowAll)
Good == words # <<>> =>
  LET d == Reduce(Sentence)
      x == RewriteD(Rs, d, LowAll)
  IN  /\ WellTyped(x) /\ x.dom = d.dom /\ x.cod = d.cod
      /\ (\A i \in 1..Len(words) : ~Hit(words[i])) => x = d
      /\ \A i \in 1..Len(words) : ~Hit(words[i]) => Count(RealBoxes(x), words[i]) >= 1
Emit == words # <<>> => PrintT("@@RUN|" \o ToJson([d |-> Reduce(Sentence), rules |-> rules]))
=============================================================================
