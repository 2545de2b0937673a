------------------------------ MODULE P18Model ------------------------------
(* Every schedule of small training runs: all validation scripts, all       *)
(* crash points (before any callback, or during any save), all resumes.     *)
(* The finished ones are printed and replayed into the real trainers.       *)
EXTENDS Training, Json, TLC
CONSTANTS Shapes,     \* set of <<N, B, E, every, VN, VB>>
          Ks, Scripts, Crashes
VARIABLES cfg, script, s, sch, calls, saves, left
vars == <<cfg, script, s, sch, calls, saves, left>>
Cfg(sh, k, mn, mt) ==
  [N |-> sh[1], B |-> sh[2], E |-> sh[3], every |-> sh[4], VN |-> sh[5], VB |-> sh[6], K |-> k, min |-> mn,
   mets |-> IF mt = 0 THEN <<>> ELSE <<"acc">>, evalTrain |-> mt > 0, crit |-> IF mt = 2 /\ sh[5] > 0 THEN "acc" ELSE "",
   shuffle |-> FALSE, vshuffle |-> FALSE]
Ints(n) == [i \in 1..n |-> i]
Take(todo, n) == LET m == Min2(n, Cardinality(todo))
                     lo == CHOOSE i \in todo : \A j \in todo : i <= j
                 IN  [i \in 1..m |-> lo + i - 1]
W1(w, x) == <<w[1] + 1, (w[2] * 3 + SumOf(x)) % 101>>
VLoss(sc, w) == sc[(w[1] % Len(sc)) + 1]
Met(w, x) == (w[2] + SumOf(x)) % 3
Advance(cf, sc, t) ==
  IF t.ph = "run" THEN LET x == Take(t.todo, cf.B) IN
       Train(cf, t, x, SumOf(x) + t.w[1], W1(t.w, x), [i \in 1..Len(cf.mets) |-> <<cf.mets[i], Met(t.w, x)>>])
  ELSE LET x == Take(t.vtodo, cf.VB) IN
       Evaluate(cf, t, x, VLoss(sc, t.w), [i \in 1..Len(cf.mets) |-> <<cf.mets[i], VLoss(sc, t.w)>>])
RECURSIVE RunAll(_, _, _)
RunAll(cf, sc, t) == IF t.ph \in {"run", "val"} THEN RunAll(cf, sc, Advance(cf, sc, t)) ELSE t
W0 == <<0, 7>>
Reference == RunAll(cfg, script, Fresh(cfg, W0))
Init == /\ \E sh \in Shapes, k \in Ks, mn \in BOOLEAN, mt \in 0..2 :
             /\ (sh[5] = 0 => k = 0 /\ mn /\ mt < 2)
             /\ cfg = Cfg(sh, k, mn, mt)
        /\ script \in (IF cfg.VN = 0 THEN {<<0>>} ELSE Scripts)
        /\ s = Fresh(cfg, W0) /\ sch = <<>> /\ calls = 0 /\ saves = 0 /\ left = Crashes
NewSaves(t) == (IF t.bfile # t.bfile0 THEN 1 ELSE 0) + (IF t.file # t.file0 THEN 1 ELSE 0)
Go == /\ s.ph \in {"run", "val"}
      /\ s' = Advance(cfg, script, s)
      /\ calls' = calls + 1
      /\ saves' = saves + NewSaves(s)     \* saves before the event in s'
      /\ UNCHANGED <<cfg, script, sch, left>>
Crash == /\ s.ph \in {"run", "val"} /\ left > 0
         /\ s' = Crashed(s, "")
         /\ sch' = Append(sch, [at |-> calls + 1, bomb |-> 0])
         /\ left' = left - 1
         /\ UNCHANGED <<cfg, script, calls, saves>>
CrashSave == /\ s.ph \in {"run", "val", "over"} /\ left > 0 /\ calls > 0
             /\ \E b \in {"best_", "model"} :
                  /\ b = "best_" => s.bfile # s.bfile0
                  /\ b = "model" => s.file # s.file0
                  /\ s' = Crashed(s, b)
                  /\ sch' = Append(sch, [at |-> 0, bomb |-> saves + (IF b = "model" /\ s.bfile # s.bfile0 THEN 2 ELSE 1)])
             /\ left' = left - 1
             /\ UNCHANGED <<cfg, script, calls, saves>>
Resume == /\ s.ph = "crashed"
          /\ s' = IF s.file.there THEN Resumed(cfg, s.file, s.bfile) ELSE [Fresh(cfg, W0) EXCEPT !.bfile = s.bfile, !.bfile0 = s.bfile]
          /\ calls' = 0 /\ saves' = 0
          /\ UNCHANGED <<cfg, script, sch, left>>
Next == Go \/ Crash \/ CrashSave \/ Resume
Spec == Init /\ [][Next]_vars
(* -------------------------------------------------------- properties ---- *)
Counts == s.ph # "crashed" =>
            /\ Len(s.tc) = s.step /\ s.td = s.step /\ Len(s.tec) = s.ted
            /\ (s.ph = "run" => s.step = (s.ep - 1) * CeilDiv(cfg.N, cfg.B) + Len(s.losses))
            /\ (HasVal(cfg) => Len(s.vc) = (IF s.ph = "val" THEN (s.step \div cfg.every) - 1 ELSE s.step \div cfg.every))
            /\ s.vd = CeilDiv(cfg.VN, cfg.VB) * Len(s.vc) + Len(s.vloss) * (IF s.ph = "val" THEN 1 ELSE 0)
ResumeEqual == s.ph = "over" =>
                 LET r == Reference IN Books(s) = Books(r) /\ s.w = r.w /\ s.file = r.file /\ s.bfile = r.bfile
BestTruth == (s.ph = "over" /\ Len(s.vc) > 0) =>
                 LET v == Crit(cfg, s) IN s.bfile.there /\ Len(s.bfile.books.vc) = BestAt(cfg, v)
(* the stopped run was stalled, and had never been before *)
StopExact == (s.ph = "over" /\ cfg.K > 0) =>
   LET v == Crit(cfg, s)
       stalled(n) == n > 0 /\ n - BestAt(cfg, SubSeq(v, 1, n)) >= cfg.K
   IN  /\ (s.ep < cfg.E => stalled(Len(v)))
       /\ \A n \in 1..(Len(v) - 1) : ~stalled(n)
ModelFileUsable == s.file.there => s.file.step = s.file.books.td
Emit == s.ph = "over" => PrintT("@@RUN|" \o ToJson([cfg |-> cfg, script |-> script, sch |-> sch]))
=============================================================================
