------------------------------ MODULE P18Trace ------------------------------
(* Recorded training runs, with crashes and resumes, must be behaviours of  *)
(* Training.                                                                *)
EXTENDS Training, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, s
cfg == Cases[c].cfg
Key(f) == IF f.there THEN [there |-> TRUE, usable |-> TRUE, ep |-> f.ep, step |-> f.step, w |-> f.w] ELSE f
SameEv(obs, want) == /\ {obs[i][1] : i \in 1..Len(obs)} = DOMAIN want
                     /\ Len(obs) = Cardinality(DOMAIN want)
                     /\ \A i \in 1..Len(obs) : SameSeq(obs[i][2], want[obs[i][1]])
BooksBad(p, o, b) ==
  UNION {IF SameSeq(o.tc, b.tc) THEN {} ELSE {p \o "train-costs"},
         IF SameSeq(o.tec, b.tec) THEN {} ELSE {p \o "epoch-costs"},
         IF SameEv(o.tr, b.tr) THEN {} ELSE {p \o "train-metrics"},
         IF SameSeq(o.vc, b.vc) THEN {} ELSE {p \o "val-costs"},
         IF SameEv(o.vr, b.vr) THEN {} ELSE {p \o "val-metrics"},
         IF <<o.td, o.vd, o.ted>> = <<b.td, b.vd, b.ted>> /\ ~o.neg THEN {} ELSE {p \o "durations"}}
FileBad(p, o, f) ==
  IF o.there # f.there THEN {p \o "exists"}
  ELSE IF ~o.there THEN {}
  ELSE IF ~o.usable THEN {p \o "unusable"}
  ELSE (IF <<o.ep, o.step>> = <<f.ep, f.step>> THEN {} ELSE {p \o "counters"})
       \cup (IF o.w = f.w THEN {} ELSE {p \o "weights"})
       \cup BooksBad(p, o.books, f.books)
NextIds(all, todo, n) == LET m == Min2(n, Cardinality(todo))
                             lo == CHOOSE i \in todo : \A j \in todo : i <= j
                         IN  [i \in 1..m |-> lo + i - 1]
StepBad(e, todo, n, shuffled, due) ==
  UNION {IF Range(e.x) \subseteq todo /\ Cardinality(Range(e.x)) = Len(e.x) /\ Len(e.x) = Min2(n, Cardinality(todo))
            THEN (IF shuffled \/ e.x = NextIds({}, todo, n) THEN {} ELSE {"order"}) ELSE {"batch"},
         IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) : e.y[i] = Target(e.x[i]) THEN {} ELSE {"pairing"},
         IF e.w0 = s.w THEN {} ELSE {"weights-before"},
         IF e.fm = Key(s.file) THEN {} ELSE {"model-file"},
         IF e.fb = Key(s.bfile) THEN {} ELSE {"best-file"},
         IF due THEN (IF Len(e.mets) = Len(cfg.mets) /\ {e.mets[i][1] : i \in 1..Len(e.mets)} = Names(cfg) THEN {} ELSE {"metrics"})
                ELSE (IF e.mets = <<>> THEN {} ELSE {"metrics"})}
Enabled(e) ==
  CASE e.op = "start" -> s.ph \in {"none", "crashed", "ended"}
    [] e.op = "train" -> s.ph = "run"
    [] e.op = "val" -> s.ph = "val"
    [] e.op = "end" -> s.ph = "over"
    [] e.op = "crash" -> s.ph \in {"run", "val", "over"}
    [] OTHER -> FALSE
Bad(e) ==
  IF ~Enabled(e) THEN {e.op \o ":when-" \o s.ph}
  ELSE CASE e.op = "start" ->
              IF e.resume THEN (IF e.w = s.file.w THEN {} ELSE {"start:weights"}) ELSE {}
         [] e.op = "train" -> {"train:" \o x : x \in StepBad(e, s.todo, cfg.B, cfg.shuffle, cfg.evalTrain)}
         [] e.op = "val" -> {"val:" \o x : x \in StepBad(e, s.vtodo, cfg.VB, cfg.vshuffle, TRUE)
                              \cup (IF e.w1 = s.w THEN {} ELSE {"changes-weights"})}
         [] e.op = "end" -> FileBad("end:model-", e.fm, s.file) \cup FileBad("end:best-", e.fb, s.bfile)
                             \cup BooksBad("end:", e.books, Books(s)) \cup (IF e.w = s.w THEN {} ELSE {"end:weights"})
         [] e.op = "crash" -> LET t == Crashed(s, e.bomb) IN
                              FileBad("crash:model-", e.fm, t.file) \cup FileBad("crash:best-", e.fb, t.bfile)
Step(e) ==
  CASE e.op = "start" -> IF e.resume THEN Resumed(cfg, s.file, s.bfile)
                         ELSE [Fresh(cfg, e.w) EXCEPT !.bfile = IF s.ph = "none" THEN None ELSE s.bfile]
    [] e.op = "train" -> Train(cfg, s, e.x, e.loss, e.w1, e.mets)
    [] e.op = "val" -> Evaluate(cfg, s, e.x, e.loss, e.mets)
    [] e.op = "end" -> [s EXCEPT !.ph = "ended"]
    [] e.op = "crash" -> Crashed(s, e.bomb)
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = [ph |-> "none", file |-> None, bfile |-> None]
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               bad == Bad(e)
           IN  /\ \A x \in bad : PrintT("@@FAIL|" \o ToString(c) \o "|" \o x \o "|event " \o ToString(l) \o " " \o e.op \o (IF e.op = "error" THEN " " \o e.what ELSE ""))
               /\ IF bad = {} THEN s' = Step(e) /\ l' = l + 1
                  ELSE s' = s /\ l' = Len(Cases[c].events) + 1
        /\ IF l' = Len(Cases[c].events) + 1 THEN PrintT("@@DONE|" \o ToString(Len(Cases[c].events))) ELSE TRUE
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
