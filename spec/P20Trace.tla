------------------------------ MODULE P20Trace ------------------------------
(* Recorded optimiser runs, event by event against the published rules.     *)
(* st: the state of the optimiser (for Nelder-Mead the set of states that   *)
(* explain the run so far); snap: the saved state.                          *)
EXTENDS Optimisers, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, st, snap
cfg == Cases[c].cfg
Tol == 3

(* ---- SPSA: acc collects pairs of coordinates seen to move alike/apart -- *)
Moved(p, q) == {i \in 1..Len(p) : p[i] # q[i]}
SignsOf(p, q) == {<<i, j, (p[i] > q[i]) = (p[j] > q[j])>> : i \in Moved(p, q), j \in Moved(p, q)}
Loose(s) == \A i \in 1..cfg.n : Abs(s.chg[i]) < 10000000
SpsaNext(e) ==
  CASE e.op = "backward" ->
         IF Len(e.evals) # 2 THEN [bad |-> {"evaluations"}, s |-> st]
         ELSE LET p == e.evals[1].x q == e.evals[2].x lp == e.evals[1].f lq == e.evals[2].f
                  t == SpsaBackward(cfg, st.o, p, q, lp, lq, e.present)
              IN  [bad |-> UNION {IF IsPair(cfg, st.o, p, q, Tol) THEN {} ELSE {"points"},
                                  IF Abs(2 * e.loss - lp - lq) <= 4 THEN {} ELSE {"loss"},
                                  IF e.w = st.o.w THEN {} ELSE {"weights-not-restored"}},
                   s |-> [o |-> t, signs |-> st.signs \cup SignsOf(p, q), steps |-> st.steps + 1]]
    [] e.op = "step" ->
         LET t == SpsaStep(cfg, st.o)
             off(i) == Tol + Abs(st.o.chg[i]) \div 300
             bad == {i \in 1..cfg.n : Abs(e.w[i] - t.w[i]) > off(i)}
         IN  [bad |-> UNION {IF cfg.lo # <<>> /\ \E i \in 1..cfg.n : e.w[i] > cfg.hi[i] \/ e.w[i] < cfg.lo[i] THEN {"out-of-bounds"} ELSE {},
                             IF \E i \in bad : st.o.chg[i] = 0 THEN {"absent-moved"} ELSE {},
                             IF \E i \in bad : st.o.chg[i] # 0 THEN {"update"} ELSE {}},
              s |-> [st EXCEPT !.o = [t EXCEPT !.w = e.w]]]
    [] e.op = "zero" -> [bad |-> {}, s |-> [st EXCEPT !.o = SpsaZero(cfg, st.o)]]
    [] e.op = "end" ->
         [bad |-> IF st.steps >= 30 /\ cfg.lo = <<>> /\ Cardinality(st.signs) # cfg.n * cfg.n * 2 - cfg.n THEN {"directions"} ELSE {},
          s |-> st]
    [] e.op = "load" -> [bad |-> IF e.w = snap.o.w THEN {} ELSE {"load-moves-weights"},
                         s |-> [st EXCEPT !.o = [snap.o EXCEPT !.chg = [i \in 1..cfg.n |-> 0]]]]
    [] OTHER -> [bad |-> {}, s |-> st]

(* ---- Nelder-Mead ------------------------------------------------------- *)
(* st.o: a set of [first, sim, fsim]; st.best: weights for the next step    *)
Seen(e) == [i \in 1..Len(e.evals) |-> <<e.evals[i].x, e.evals[i].f>>]
RECURSIVE Follow(_, _, _)
(* the simplexes after one iteration whose points are those of ev           *)
Follow(s, ev, k) ==
  LET r == Iterate(cfg, s, SubSeq(ev, 1, k)) IN
  IF r.done THEN IF k = Len(ev) THEN Sorted(r.sim, r.fsim) ELSE {}
  ELSE IF k < Len(ev) /\ NearV(r.x, ev[k + 1][1], Tol) THEN Follow(s, ev, k + 1) ELSE {}
After(s, ev) == UNION {IF d THEN IF ev = <<>> THEN {s} ELSE {} ELSE Follow(s, ev, 0) : d \in Converged(cfg, s, 6)}
NmBackward(e) ==
  LET ev == Seen(e)
      m == cfg.n + 1
      out(s) == IF ~s.first THEN After([sim |-> s.sim, fsim |-> s.fsim], ev)
                ELSE IF Len(ev) < m \/ \E i \in 1..m : ~NearV(s.sim[i], ev[i][1], Tol) THEN {}
                ELSE UNION {After(x, SubSeq(ev, m + 1, Len(ev))) : x \in Sorted([i \in 1..m |-> ev[i][1]], [i \in 1..m |-> ev[i][2]])}
      first == \A s \in st.o : s.first
      badstart == first /\ (Len(ev) < m \/ \A s \in st.o : \E i \in 1..m : ~NearV(s.sim[i], ev[i][1], Tol))
      o == UNION {out(s) : s \in st.o}
      best == IF o = {} THEN {} ELSE {s \in o : Abs(s.fsim[1] - e.loss) <= 1}
  IN  [bad |-> UNION {IF cfg.lo # <<>> /\ \E k \in 1..Len(ev) : \E i \in 1..cfg.n : ev[k][1][i] > cfg.hi[i] \/ ev[k][1][i] < cfg.lo[i] THEN {"out-of-bounds"} ELSE {},
                      IF badstart THEN {"first-simplex"} ELSE IF o = {} THEN {"iteration"} ELSE IF best = {} THEN {"loss"} ELSE {}},
       s |-> [o |-> {[first |-> FALSE, sim |-> s.sim, fsim |-> s.fsim] : s \in (IF best = {} THEN o ELSE best)},
              present |-> e.present, w |-> st.w]]
NmStep(e) ==
  LET on == {i \in 1..cfg.n : st.present[i] = 1}
      off == {i \in 1..cfg.n : st.present[i] = 0}
      ok == {s \in st.o : \A i \in on : Abs(s.sim[1][i] - e.w[i]) <= Tol}
      zero == Proj(cfg, [i \in 1..cfg.n |-> 0])
  IN  [bad |-> UNION {IF ok = {} THEN {"not-the-best-vertex"} ELSE {},
                      IF \A i \in off : Abs(e.w[i] - st.w[i]) <= Tol THEN {}
                      ELSE IF \A i \in off : e.w[i] = zero[i] THEN {"absent-set-to-zero"} ELSE {"absent-moved"}},
       s |-> [st EXCEPT !.o = IF ok = {} THEN @ ELSE ok, !.w = e.w]]
NmNext(e) ==
  CASE e.op = "backward" -> NmBackward(e)
    [] e.op = "step" -> NmStep(e)
    [] e.op = "load" -> [bad |-> IF e.w = snap.w THEN {} ELSE {"load-moves-weights"}, s |-> snap]
    [] OTHER -> [bad |-> {}, s |-> st]

(* ---- Rotosolve --------------------------------------------------------- *)
RotoNext(e) ==
  CASE e.op = "backward" ->
         LET r == Roto(cfg, st.o, 1)
             off == {i \in 1..cfg.n : ~NearTurn(e.w[i], r.w[i], cfg.sc, Tol)}
         IN  [bad |-> IF ~r.known THEN {}
                      ELSE UNION {IF \E i \in off : ~Occurs(cfg, i) THEN {"absent-moved"} ELSE {},
                                  IF \E i \in off : Occurs(cfg, i) THEN {"not-the-minimum"} ELSE {},
                                  IF off = {} /\ Abs(e.loss - LossR(cfg, r.w) * cfg.sc) > 2 * Tol THEN {"loss"} ELSE {}},
              s |-> [st EXCEPT !.o = r.w, !.known = r.known]]
    [] e.op = "step" -> [bad |-> IF \A i \in 1..cfg.n : NearTurn(e.w[i], st.o[i], cfg.sc, Tol) THEN {} ELSE {"step-moves"}, s |-> st]
    [] OTHER -> [bad |-> {}, s |-> st]

Start == CASE cfg.kind = "spsa" -> [o |-> SpsaInit(cfg), signs |-> {}, steps |-> 0]
           [] cfg.kind = "nm" -> [o |-> {[first |-> TRUE, sim |-> FirstSimplex(cfg, cfg.small), fsim |-> <<>>]}, w |-> Proj(cfg, cfg.w),
                                  present |-> [i \in 1..cfg.n |-> 1]]
           [] OTHER -> [o |-> cfg.w, known |-> TRUE]
Move(e) == IF e.op = "error" THEN [bad |-> {e.err}, s |-> st]
           ELSE CASE cfg.kind = "spsa" -> SpsaNext(e)
                  [] cfg.kind = "nm" -> NmNext(e)
                  [] OTHER -> RotoNext(e)
Init == c \in 1..Len(Cases) /\ l = 1 /\ st = Start /\ snap = Start
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               r == Move(e)
               N == Len(Cases[c].events)
               known == cfg.kind = "nm" /\ r.bad = {"absent-set-to-zero"}
               stop == (r.bad # {} /\ ~known) \/ (cfg.kind = "roto" /\ ~r.s.known)
           IN  /\ \A b \in r.bad : PrintT("@@FAIL|" \o ToString(c) \o "|" \o cfg.kind \o ":" \o e.op \o ":" \o b \o "|event " \o ToString(l))
               /\ st' = r.s
               /\ snap' = IF e.op = "save" THEN st ELSE snap
               /\ l' = IF stop THEN N + 1 ELSE l + 1
               /\ IF l' = N + 1 THEN PrintT("@@DONE|" \o ToString(N)) ELSE TRUE
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l, st, snap>>
=============================================================================
