------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* What processing a batch of sentences has to answer.  A sentence is       *)
(*   [kind |-> "good" | "bad" | "empty", res |-> answer when alone]         *)
(* ("bad": processing it alone fails).  0 is the empty result.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Wrong(s) == s.kind # "good"
(* A batch of which one sentence cannot be processed raises, or, with        *)
(* exceptions suppressed, has the empty result there.                        *)
MustRaise(b, suppress) == ~suppress /\ \E i \in DOMAIN b : Wrong(b[i])
Answer(b) == [i \in DOMAIN b |-> IF Wrong(b[i]) THEN 0 ELSE b[i].res]

(***************************************************************************)
(* Scores: sc[c] is the log probability (times Unit) of the class c-1.      *)
(* The classes a tagger keeps: the topk best ones (0: all), of those the    *)
(* ones at the threshold `thr` (given on the same scale; "relative" to the  *)
(* best) or above, best first, for spans without class 0.                   *)
(***************************************************************************)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Best(sc) == CHOOSE x \in {sc[i] : i \in DOMAIN sc} : \A i \in DOMAIN sc : sc[i] <= x
Rank(sc, i) == Cardinality({j \in DOMAIN sc : sc[j] > sc[i]})
Kept(sc, topk, thr, rel, nothr, isspan) ==
  {i \in DOMAIN sc : /\ topk = 0 \/ Rank(sc, i) < topk
                     /\ nothr \/ sc[i] >= thr + (IF rel THEN Best(sc) ELSE 0)
                     /\ ~isspan \/ i # 1}
(* no two scores, and no score and the threshold, closer than Eps            *)
Clear(sc, thr, rel, eps) ==
  /\ \A i, j \in DOMAIN sc : i # j => Abs(sc[i] - sc[j]) > eps
  /\ \A i \in DOMAIN sc : Abs(sc[i] - (thr + (IF rel THEN Best(sc) ELSE 0))) > eps \/ sc[i] = Best(sc)
KeptRight(got, sc, topk, thr, rel, nothr, isspan, eps) ==
  LET want == Kept(sc, topk, thr, rel, nothr, isspan)
      ids == {got[k][1] + 1 : k \in DOMAIN got} IN
  /\ Len(got) = Cardinality(ids)
  /\ ids = want
  /\ \A k \in DOMAIN got : Abs(got[k][2] - sc[got[k][1] + 1]) <= eps
  /\ \A k, m \in DOMAIN got : k < m => got[k][2] >= got[m][2] - eps
=============================================================================
