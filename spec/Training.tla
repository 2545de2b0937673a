------------------------------ MODULE Training ------------------------------
(* A training run as a state machine: epochs, batches, evaluations, books,  *)
(* checkpoints, early stopping, crashes and resumes.  One operator per      *)
(* transition; the numbers (losses, metric values, weights) are inputs.     *)
(*                                                                          *)
(* cfg: N B E   data, batch size, epochs       VN VB  validation set        *)
(*      every   steps between evaluations      mets   metric names (seq)    *)
(*      evalTrain, crit (metric name or ""), K (0: no early stopping),      *)
(*      min (lower is better), shuffle, vshuffle                            *)
(* A number is <<numerator, denominator>>.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions
None == [there |-> FALSE]
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Same(a, b) == a[1] * b[2] = b[1] * a[2]
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* the mean of per-batch values, every batch weighing its size *)
WMean(run) == <<SumOf([i \in 1..Len(run) |-> run[i][1] * run[i][2]]), SumOf([i \in 1..Len(run) |-> run[i][1]])>>
Whole(n) == <<n, 1>>
Ids(cfg) == 1..cfg.N
VIds(cfg) == 51..(50 + cfg.VN)
Target(id) == 100 + id
Names(cfg) == {cfg.mets[i] : i \in 1..Len(cfg.mets)}
NoRuns(cfg) == [m \in Names(cfg) |-> <<>>]
HasVal(cfg) == cfg.VN > 0
Books(s) == [tc |-> s.tc, tec |-> s.tec, tr |-> s.tr, vc |-> s.vc, vr |-> s.vr,
             td |-> s.td, vd |-> s.vd, ted |-> s.ted]
Snapshot(s) == [there |-> TRUE, ep |-> s.ep, step |-> s.step, w |-> s.w, books |-> Books(s), trun |-> s.trun]

(* ------------------------------------------------- monitored values ---- *)
Crit(cfg, s) == IF cfg.crit = "" THEN s.vc ELSE s.vr[cfg.crit]
Better(cfg, a, b) == IF cfg.min THEN Lt(a, b) ELSE Lt(b, a)
(* the index of the first best value *)
BestAt(cfg, v) == CHOOSE i \in 1..Len(v) : (\A j \in 1..Len(v) : ~Better(cfg, v[j], v[i]))
                                            /\ (\A j \in 1..(i - 1) : Better(cfg, v[i], v[j]))
(* the last K evaluations brought no improvement *)
Stalled(cfg, s) == LET v == Crit(cfg, s) IN cfg.K > 0 /\ Len(v) > 0 /\ Len(v) - BestAt(cfg, v) >= cfg.K

(* ------------------------------------------------------- transitions ---- *)
Fresh(cfg, w) ==
  [ph |-> "run", ep |-> 1, step |-> 0, todo |-> Ids(cfg), losses |-> <<>>, w |-> w,
   tc |-> <<>>, tec |-> <<>>, tr |-> NoRuns(cfg), trun |-> NoRuns(cfg),
   vc |-> <<>>, vr |-> NoRuns(cfg), vrun |-> NoRuns(cfg), vtodo |-> {}, vloss |-> <<>>,
   td |-> 0, vd |-> 0, ted |-> 0, file |-> None, bfile |-> None, file0 |-> None, bfile0 |-> None]
(* the saved run, continued after its last completed epoch *)
Resumed(cfg, f, bf) ==
  LET b == f.books
      s == [ph |-> "run", ep |-> f.ep + 1, step |-> f.step, todo |-> Ids(cfg), losses |-> <<>>, w |-> f.w,
            tc |-> b.tc, tec |-> b.tec, tr |-> b.tr, trun |-> f.trun,
            vc |-> b.vc, vr |-> b.vr, vrun |-> NoRuns(cfg), vtodo |-> {}, vloss |-> <<>>,
            td |-> b.td, vd |-> b.vd, ted |-> b.ted, file |-> f, bfile |-> bf, file0 |-> f, bfile0 |-> bf]
  IN  IF f.ep >= cfg.E \/ (HasVal(cfg) /\ Stalled(cfg, s)) THEN [s EXCEPT !.ph = "over", !.ep = f.ep] ELSE s
(* after the step and its evaluation, if any *)
Finish(cfg, s, stop) ==
  IF s.todo = {} \/ stop THEN
    LET t == [s EXCEPT !.tec = Append(@, WMean(s.losses)), !.ted = @ + 1]
        u == [t EXCEPT !.file = Snapshot(t)]
    IN  IF stop \/ s.ep = cfg.E THEN [u EXCEPT !.ph = "over"]
        ELSE [u EXCEPT !.ep = @ + 1, !.todo = Ids(cfg), !.losses = <<>>]
  ELSE s
Summarise(cfg, runs, res) == [m \in Names(cfg) |-> Append(res[m], WMean(runs[m]))]
MetValue(mets, m) == LET i == CHOOSE i \in 1..Len(mets) : mets[i][1] = m IN mets[i][2]
AddMets(cfg, runs, n, mets) == [m \in Names(cfg) |-> Append(runs[m], <<n, MetValue(mets, m)>>)]
Train(cfg, s0, x, loss, w1, mets) ==
  LET s == [s0 EXCEPT !.file0 = s0.file, !.bfile0 = s0.bfile, !.step = @ + 1, !.todo = @ \ Range(x), !.w = w1, !.td = @ + 1,
                      !.losses = Append(@, <<Len(x), loss>>), !.tc = Append(@, Whole(loss)),
                      !.trun = IF cfg.evalTrain THEN AddMets(cfg, @, Len(x), mets) ELSE @]
      due == s.step % cfg.every = 0
      t == IF due /\ cfg.evalTrain THEN [s EXCEPT !.tr = Summarise(cfg, s.trun, @), !.trun = NoRuns(cfg)] ELSE s
  IN  IF due /\ HasVal(cfg) THEN [t EXCEPT !.ph = "val", !.vtodo = VIds(cfg), !.vloss = <<>>, !.vrun = NoRuns(cfg)]
      ELSE Finish(cfg, t, FALSE)
Evaluate(cfg, s0, x, loss, mets) ==
  LET s == [s0 EXCEPT !.file0 = s0.file, !.bfile0 = s0.bfile, !.vtodo = @ \ Range(x), !.vd = @ + 1,
                      !.vloss = Append(@, <<Len(x), loss>>), !.vrun = AddMets(cfg, @, Len(x), mets)]
  IN  IF s.vtodo # {} THEN s
      ELSE LET t == [s EXCEPT !.ph = "run", !.vc = Append(@, WMean(s.vloss)), !.vr = Summarise(cfg, s.vrun, @)]
               v == Crit(cfg, t)
               u == IF BestAt(cfg, v) = Len(v) THEN [t EXCEPT !.bfile = Snapshot(t)] ELSE t
           IN  Finish(cfg, u, Stalled(cfg, u))
(* a save that fails leaves the previous file *)
Crashed(s, bomb) ==
  [s EXCEPT !.ph = "crashed",
            !.file = IF bomb # "" THEN s.file0 ELSE @,
            !.bfile = IF bomb = "best_" THEN s.bfile0 ELSE @]
=============================================================================
