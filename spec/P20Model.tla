------------------------------ MODULE P20Model ------------------------------
(* Every course of a short Nelder-Mead run: each evaluation may return any  *)
(* of a few values.  Complete runs are printed for replay.                  *)
EXTENDS Optimisers, Json
CONSTANTS MaxVal, Sweeps
Base == [kind |-> "nm", sc |-> 1000, xatol |-> 0, fatol |-> 0, small |-> 0]
Cfgs == << [n |-> 1, adaptive |-> FALSE, lo |-> <<>>, hi |-> <<>>, w |-> <<2000>>, simplex |-> <<>>],
           [n |-> 1, adaptive |-> TRUE, lo |-> <<0>>, hi |-> <<2050>>, w |-> <<2000>>, simplex |-> <<>>],
           [n |-> 2, adaptive |-> FALSE, lo |-> <<>>, hi |-> <<>>, w |-> <<2000, 4000>>, simplex |-> <<<<0, 0>>, <<1000, 0>>, <<0, 1000>>>>],
           [n |-> 2, adaptive |-> TRUE, lo |-> <<0 - 500, 0 - 500>>, hi |-> <<1200, 1200>>, w |-> <<600, 600>>, simplex |-> <<<<0, 0>>, <<1000, 0>>, <<0, 1000>>>>] >>
Full(i) == Base @@ Cfgs[i]
VARIABLES k, ph, sim, fsim, ev, hist, sweep
vars == <<k, ph, sim, fsim, ev, hist, sweep>>
Init == /\ k \in 1..Len(Cfgs)
        /\ ph = "first" /\ sim = FirstSimplex(Full(k), 0) /\ fsim = <<>> /\ ev = <<>> /\ hist = <<>> /\ sweep = 0
Pick(s) == CHOOSE x \in s : TRUE
Eval(v) ==
  IF ph = "first" THEN
    LET f == Append(fsim, v)
        go == Len(f) = Len(sim)
        x == Pick(Sorted(sim, f))
    IN  /\ fsim' = IF go THEN x.fsim ELSE f
        /\ sim' = IF go THEN x.sim ELSE sim
        /\ ph' = IF go THEN "iterate" ELSE ph
        /\ UNCHANGED <<ev, sweep>>
  ELSE LET need == Iterate(Full(k), [sim |-> sim, fsim |-> fsim], ev)
           e2 == Append(ev, <<need.x, v>>)
           r == Iterate(Full(k), [sim |-> sim, fsim |-> fsim], e2)
           x == IF r.done THEN Pick(Sorted(r.sim, r.fsim)) ELSE need
       IN  /\ IF r.done THEN sim' = x.sim /\ fsim' = x.fsim /\ ev' = <<>> /\ sweep' = sweep + 1
              ELSE ev' = e2 /\ UNCHANGED <<sim, fsim, sweep>>
           /\ UNCHANGED ph
Next == /\ sweep < (IF Full(k).n = 1 THEN Sweeps + 1 ELSE Sweeps)
        /\ \E v \in 0..MaxVal : hist' = Append(hist, v) /\ Eval(v)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
(* laws *)
Ordered == ph = "iterate" => \A i \in 1..(Len(fsim) - 1) : fsim[i] <= fsim[i + 1]
Inside == Full(k).lo = <<>> \/ \A i \in 1..Len(sim) : \A j \in 1..Len(sim[i]) : sim[i][j] >= Full(k).lo[j] /\ sim[i][j] <= Full(k).hi[j]
Short == Len(ev) <= Full(k).n + 1
BestKept == [][ph = "iterate" => fsim'[1] <= fsim[1]]_vars
WorstKept == [][ph = "iterate" /\ sweep' # sweep => Last(fsim') <= Last(fsim) \/ Len(ev) >= Full(k).n]_vars
NoLoss == [][ph = "iterate" /\ sweep' # sweep /\ Len(ev') = 0 /\ Len(ev) < Full(k).n + 1 => SumS(fsim') <= SumS(fsim)]_vars
Emit == IF sweep = (IF Full(k).n = 1 THEN Sweeps + 1 ELSE Sweeps) THEN PrintT("@@RUN|" \o ToJson([k |-> k, f |-> hist])) ELSE TRUE
=============================================================================
