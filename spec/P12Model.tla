------------------------------ MODULE P12Model ------------------------------
(* A shift-reduce machine that builds every derivation over a lexicon of   *)
(* categories.  Invariant: the wiring of every phrase is well typed.  Every *)
(* finished derivation is printed, for replay against the implementation.  *)
EXTENDS CCG, Json, TLCExt
CONSTANTS MaxWords, MaxRaise, MaxUnary, Lexicon
VARIABLES stack, used, raised, retyped
vars == <<stack, used, raised, retyped>>
n == Atom("n")
s == Atom("s")
vp == Under(s, n)
Small == {n, vp, Over(vp, n), Over(n, n), Over(s, s), Under(vp, vp), Conj}
Wide == Small \cup {Punc, Over(s, n), Under(n, n), Over(vp, vp), Under(Over(vp, n), Over(vp, n)), Over(Over(vp, n), n),
                    Over(Under(n, n), n), Under(Under(s, s), n)}
Lex == IF Lexicon = "small" THEN Small ELSE Wide
Word(c, i) == [rule |-> "L", cat |-> c, ch |-> <<>>, w |-> "w" \o ToString(i)]
Node(r, c, ch) == [rule |-> r, cat |-> c, ch |-> ch, w |-> ""]
Init == stack = <<>> /\ used = 0 /\ raised = 0 /\ retyped = 0
Shift == /\ used < MaxWords
         /\ \E c \in Lex : stack' = Append(stack, Word(c, used + 1))
         /\ used' = used + 1
         /\ UNCHANGED <<raised, retyped>>
Top == stack[Len(stack)]
Sec == stack[Len(stack) - 1]
Reduce == /\ Len(stack) >= 2
          /\ \E r \in Binary : \E o \in Outs(r, <<Sec.cat, Top.cat>>) :
                stack' = Append(SubSeq(stack, 1, Len(stack) - 2), Node(r, o, <<Sec, Top>>))
          /\ UNCHANGED <<used, raised, retyped>>
Raise == /\ raised < MaxRaise /\ stack # <<>>
         /\ \E t \in {s, vp} : \E r \in {"FTR", "BTR"} :
              LET x == Top.cat
                  o == IF r = "FTR" THEN Over(t, Under(t, x)) ELSE Under(t, Over(t, x))
              IN  /\ x = n
                  /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 1), Node(r, o, <<Top>>))
         /\ raised' = raised + 1
         /\ UNCHANGED <<used, retyped>>
(* unary rules: a noun phrase for a sentence, modifiers for verb phrases,    *)
(* with and without a change of direction                                    *)
UnaryPairs == {<<n, s>>, <<s, n>>, <<vp, Under(n, n)>>, <<Over(s, n), Under(n, n)>>, <<vp, Over(n, n)>>,
               <<vp, Over(s, s)>>, <<Over(n, n), Over(s, s)>>, <<Over(s, s), Under(vp, vp)>>}
Unary == /\ retyped < MaxUnary /\ stack # <<>>
         /\ \E u \in UnaryPairs :
              /\ Top.cat = u[1]
              /\ Phrases(Node("U", u[2], <<Top>>), u[2], <<>>) # {}
              /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 1), Node("U", u[2], <<Top>>))
         /\ retyped' = retyped + 1
         /\ UNCHANGED <<used, raised>>
Next == Shift \/ Reduce \/ Raise \/ Unary
Spec == Init /\ [][Next]_vars
(* ---- invariants ---- *)
(* a cap of T: flat type of T next to that of its adjoint.  Caps are read   *)
(* off the phrase: the tokens <<path, i>> of a cap come in two halves.      *)
Sound == \A i \in 1..Len(stack) :
  LET t == stack[i] IN
  /\ Phrases(t, t.cat, <<>>) # {}
  /\ \A p \in Phrases(t, t.cat, <<>>) :
      LET wordOf(tok) == CHOOSE w \in {p.words[j] : j \in 1..Len(p.words)} : w.at = tok[1]
          isWord(tok) == \E j \in 1..Len(p.words) : p.words[j].at = tok[1]
          f == Finished(p)
          ty(tok) == wordOf(tok).t[tok[2]]
          flat == IF t.cat = Punc THEN <<>> ELSE Flat(t.cat)
      IN  /\ Len(p.ports) = Len(flat)
          /\ \A l \in p.links : Cardinality(l) = 2
          \* what comes out on a wire has the type of the category there (a wire that
          \* is crossed between a cap and a cup may turn all the way round)
          /\ \A o \in f.outs : isWord(o[2]) => LET y == ty(o[2]) IN y[1] = flat[o[1]][1] /\ (y[2] - flat[o[1]][2]) % 2 = 0
          \* what is joined is a type and its adjoint
          /\ \A l \in f.pairs : LET a == CHOOSE x \in l : TRUE
                                    b == CHOOSE x \in l : x # a
                                IN  Cardinality(l) = 2 /\ ty(a)[1] = ty(b)[1] /\ (ty(a)[2] - ty(b)[2]) % 2 = 1
          \* every wire of every word goes somewhere, exactly once
          /\ \A x \in 1..Len(p.words) : \A j \in 1..Len(p.words[x].t) :
                LET tok == <<p.words[x].at, j>> IN
                Cardinality({q \in f.pairs : tok \in q}) + Cardinality({o \in f.outs : o[2] = tok}) = 1
          \* words stay in order
          /\ \A x, y \in 1..Len(p.words) : x < y => p.words[x].w # p.words[y].w
Emit == (Len(stack) = 1 /\ Top.ch # <<>>) => PrintT("@@TREE|" \o ToJson(Top))
=============================================================================
