------------------------------ MODULE P14Model ------------------------------
(***************************************************************************)
(* The machine behind the model based parsers: empty sentences are taken    *)
(* out, the rest is tagged in groups of `bs`, parsed one after the other,   *)
(* and empty results are put back at the recorded places.                   *)
(***************************************************************************)
EXTENDS Batch, TLC, Json
CONSTANTS MaxLen, MaxBatch
VARIABLES b, sup, bs, pc, i, queue, empties, tagged, out
vars == <<b, sup, bs, pc, i, queue, empties, tagged, out>>
Kinds == {"good", "bad", "empty"}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE SeqsUpTo(S, n - 1) \cup {Append(s, x) : s \in {t \in SeqsUpTo(S, n - 1) : Len(t) = n - 1}, x \in S}
Init == /\ b \in {[k \in DOMAIN s |-> [kind |-> s[k], res |-> k]] : s \in SeqsUpTo(Kinds, MaxLen)}
        /\ sup \in BOOLEAN /\ bs \in 1..MaxBatch
        /\ pc = "validate" /\ i = 1 /\ queue = <<>> /\ empties = <<>> /\ tagged = <<>> /\ out = <<>>
Validate ==
  /\ pc = "validate"
  /\ IF i > Len(b) THEN pc' = "tag" /\ i' = 1 /\ UNCHANGED <<queue, empties>>
     ELSE IF b[i].kind = "empty"
          THEN IF sup THEN empties' = Append(empties, i) /\ i' = i + 1 /\ UNCHANGED <<queue, pc>>
               ELSE pc' = "raised" /\ UNCHANGED <<queue, empties, i>>
          ELSE queue' = Append(queue, b[i]) /\ i' = i + 1 /\ UNCHANGED <<pc, empties>>
  /\ UNCHANGED <<b, sup, bs, tagged, out>>
Tag == /\ pc = "tag"
       /\ IF Len(tagged) >= Len(queue) THEN pc' = "parse" /\ UNCHANGED tagged
          ELSE LET e == IF Len(tagged) + bs < Len(queue) THEN Len(tagged) + bs ELSE Len(queue) IN
               tagged' = tagged \o SubSeq(queue, Len(tagged) + 1, e) /\ UNCHANGED pc
       /\ UNCHANGED <<b, sup, bs, i, queue, empties, out>>
Parse == /\ pc = "parse"
         /\ IF i > Len(tagged) THEN pc' = "insert" /\ i' = 1 /\ UNCHANGED out
            ELSE IF tagged[i].kind = "bad"
                 THEN IF sup THEN out' = Append(out, 0) /\ i' = i + 1 /\ UNCHANGED pc
                      ELSE pc' = "raised" /\ UNCHANGED <<out, i>>
                 ELSE out' = Append(out, tagged[i].res) /\ i' = i + 1 /\ UNCHANGED pc
         /\ UNCHANGED <<b, sup, bs, queue, empties, tagged>>
Insert == /\ pc = "insert"
          /\ IF i > Len(empties) THEN pc' = "done" /\ UNCHANGED <<out, i>>
             ELSE out' = SubSeq(out, 1, empties[i] - 1) \o <<0>> \o SubSeq(out, empties[i], Len(out))
                  /\ i' = i + 1 /\ UNCHANGED pc
          /\ UNCHANGED <<b, sup, bs, queue, empties, tagged>>
Next == Validate \/ Tag \/ Parse \/ Insert
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Aligned == pc = "done" => /\ ~MustRaise(b, sup)
                          /\ out = Answer(b)
Raised == pc = "raised" => MustRaise(b, sup)
Ends == <>(pc \in {"done", "raised"})
Emit == IF pc \in {"done", "raised"} /\ i = i
        THEN PrintT("@@RUN|" \o ToJson([kinds |-> [k \in DOMAIN b |-> b[k].kind], sup |-> sup, bs |-> bs, raised |-> pc = "raised", out |-> out]))
        ELSE TRUE
=============================================================================
