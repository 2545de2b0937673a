------------------------------ MODULE P14Trace ------------------------------
(***************************************************************************)
(* Recorded batches.  A case:                                               *)
(*  batch: [sup, sents: seq of [kind, res, failed (alone), supnone (alone,  *)
(*         suppressed: empty result), words, got (the words of the result   *)
(*         alone)], raised, out, outwords, same (the input list is as it    *)
(*         was)]                                                            *)
(*  keyed: [sup, ids, sents.., raised, outids, out]: a corpus file          *)
(*  tags : one tagged sentence, with the log probabilities                  *)
(***************************************************************************)
EXTENDS Batch, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
If(b, s) == IF b THEN {s} ELSE {}
Alone(x) == UNION {
  If(x.kind = "good" /\ x.failed, "good-sentence-fails-alone"),
  If(x.kind # "good" /\ ~x.failed, "bad-sentence-answered-alone"),
  If(x.kind # "good" /\ ~x.supnone, "suppressed-failure-not-empty"),
  If(x.kind = "good" /\ ~x.failed /\ x.haswords /\ x.got # x.words, "result-has-other-words")}
Outcome(e) ==
  LET must == MustRaise(e.sents, e.sup) IN
  IF e.raised THEN (IF must THEN {} ELSE {"raised"})
  ELSE IF must THEN {"failure-not-raised"}
  ELSE IF Len(e.out) # Len(e.sents) THEN {"not-one-result-per-input"}
  ELSE UNION {If(Wrong(e.sents[i]) /\ e.out[i] # 0, "result-for-failing-sentence") : i \in DOMAIN e.out}
       \cup UNION {If(~Wrong(e.sents[i]) /\ e.out[i] = 0, "result-lost") : i \in DOMAIN e.out}
       \cup UNION {If(~Wrong(e.sents[i]) /\ e.out[i] # 0 /\ e.out[i] # e.sents[i].res, "result-differs-from-alone") : i \in DOMAIN e.out}
Keyed(e) ==
  LET must == MustRaise(e.sents, e.sup) IN
  IF e.raised THEN (IF must THEN {} ELSE {"raised"})
  ELSE IF must THEN {"failure-not-raised"}
  ELSE UNION {If(e.outids # e.ids, "other-ids"),
              If(e.outids = e.ids /\ e.out # Answer(e.sents), "result-differs-from-alone")}
Eps == 30
Tags(e) ==
  UNION {If(Len(e.tags) # Len(e.tagsc), "words-without-tags"),
         If(e.words # e.gotwords, "other-words"),
         UNION {If(Clear(e.tagsc[i], e.tagthr, e.tagrel, Eps)
                   /\ ~KeptRight(e.tags[i], e.tagsc[i], e.tagk, e.tagthr, e.tagrel, e.tagnothr, FALSE, Eps), "word-tags")
                : i \in {i \in DOMAIN e.tagsc : i <= Len(e.tags)}},
         UNION {LET g == {k \in DOMAIN e.spans : e.spans[k].x = e.spansc[i].x /\ e.spans[k].y = e.spansc[i].y}
                    sc == e.spansc[i].sc IN
                IF ~Clear(sc, e.spanthr, e.spanrel, Eps) THEN {}
                ELSE IF Kept(sc, e.spank, e.spanthr, e.spanrel, e.spannothr, TRUE) = {}
                     THEN If(g # {}, "span-kept")
                     ELSE If(~ \E k \in g : g = {k} /\ KeptRight(e.spans[k].tags, sc, e.spank, e.spanthr, e.spanrel, e.spannothr, TRUE, Eps), "span-tags")
                : i \in DOMAIN e.spansc},
         If(\E k \in DOMAIN e.spans : ~ \E i \in DOMAIN e.spansc : e.spansc[i].x = e.spans[k].x /\ e.spansc[i].y = e.spans[k].y, "no-such-span")}
Bad(e) ==
  CASE e.k = "batch" -> Outcome(e) \cup If(~e.same, "input-changed") \cup UNION {Alone(e.sents[i]) : i \in DOMAIN e.sents}
    [] e.k = "keyed" -> Keyed(e)
    [] e.k = "tags" -> Tags(e)
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l] IN
           \A b \in Bad(e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o Cases[c].api \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
