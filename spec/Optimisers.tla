----------------------------- MODULE Optimisers -----------------------------
(* The published update rules of the gradient-free optimisers, in fixed     *)
(* point: numbers are integers in units of 1/Sc.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Abs(x) == IF x < 0 THEN 0 - x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
NearV(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t
(* round to nearest *)
DivR(a, b) == IF b < 0 THEN (2 * (0 - a) + (0 - b)) \div (2 * (0 - b)) ELSE (2 * a + b) \div (2 * b)
SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Proj(cfg, x) == IF cfg.lo = <<>> THEN x ELSE [i \in 1..Len(x) |-> MaxI(cfg.lo[i], MinI(cfg.hi[i], x[i]))]

(* ------------------------------------------------- powers of a number -- *)
(* log2(n/4) in units of 2^-14, for n >= 4: digits by repeated squaring     *)
RECURSIVE Log2Whole(_, _)
Log2Whole(n, k) == IF n < 2 * 4 * (2 ^ k) THEN k ELSE Log2Whole(n, k + 1)
RECURSIVE Log2Frac(_, _, _)
Log2Frac(m, bit, acc) ==                    \* m in [2^15, 2^16)
  IF bit = 0 THEN acc
  ELSE LET q == (m * (m \div 2)) \div 16384       \* m*m / 2^15
       IN  IF q >= 65536 THEN Log2Frac(q \div 2, bit \div 2, acc + bit) ELSE Log2Frac(q, bit \div 2, acc)
Log2Q(n) == LET k == Log2Whole(n, 0) IN k * 16384 + Log2Frac((n * 32768) \div (4 * (2 ^ k)), 8192, 0)
(* 2^(-2^-i) in units of 2^-15, i = 1..14 *)
HalfPow == <<23170, 27554, 30048, 31379, 32066, 32415, 32591, 32679, 32724, 32746, 32757, 32762, 32765, 32767>>
RECURSIVE Exp2Neg(_, _, _, _)
Exp2Neg(f, i, bit, acc) == IF bit = 0 THEN acc
                           ELSE IF f >= bit THEN Exp2Neg(f - bit, i + 1, bit \div 2, (acc * HalfPow[i] + 16384) \div 32768)
                           ELSE Exp2Neg(f, i + 1, bit \div 2, acc)
(* v / (n/4)^(p/1000), v below 2^20 *)
Decay(v, n, p) == LET e == ((Log2Q(n) \div 4) * p) \div 250
                      m == Exp2Neg(e % 16384, 1, 8192, 32768)
                      d == 2 ^ (e \div 16384)
                  IN  (((v \div 1024) * m) \div 32 + ((v % 1024) * m) \div 32768) \div d

(* ------------------------------------------------------------- SPSA ---- *)
(* cfg: n, a (units 1e-5), c (units 1e-4), A4 (quarters), lo, hi, w         *)
(* state: k, w, chg (what the accumulated gradient changes at the next step) *)
SpsaInit(cfg) == [k |-> 1, w |-> cfg.w, chg |-> [i \in 1..cfg.n |-> 0], hyp |-> [a |-> cfg.a, c |-> cfg.c, A4 |-> cfg.A4]]
Ak(s) == Decay(s.hyp.a, 4 * s.k + s.hyp.A4, 602)
Ck(s) == Decay(s.hyp.c, 4 * s.k, 101)
(* the points evaluated by one backward pass: p and q mirror each other     *)
Shifted(cfg, s, sgn) == Proj(cfg, [i \in 1..cfg.n |-> s.w[i] + sgn * Ck(s)])
IsPair(cfg, s, p, q, t) ==
  LET up == Shifted(cfg, s, 1) dn == Shifted(cfg, s, 0 - 1)
  IN  \A i \in 1..cfg.n : \/ Abs(p[i] - up[i]) <= t /\ Abs(q[i] - dn[i]) <= t
                          \/ Abs(q[i] - up[i]) <= t /\ Abs(p[i] - dn[i]) <= t
(* a pinned coordinate has no slope *)
Slope(s, dl, dx) == IF dx = 0 THEN 0 ELSE DivR(DivR(dl * Ak(s), dx), 10)
SpsaBackward(cfg, s, p, q, lp, lq, present) ==
  [s EXCEPT !.chg = [i \in 1..cfg.n |-> @[i] + (IF present[i] = 1 THEN Slope(s, lp - lq, p[i] - q[i]) ELSE 0)]]
SpsaStep(cfg, s) == [s EXCEPT !.k = @ + 1, !.w = Proj(cfg, [i \in 1..cfg.n |-> @[i] - s.chg[i]]),
                              !.chg = [i \in 1..cfg.n |-> 0]]
SpsaZero(cfg, s) == [s EXCEPT !.chg = [i \in 1..cfg.n |-> 0]]

(* ------------------------------------------------------ Nelder-Mead ---- *)
(* cfg: n, adaptive, lo, hi, w, simplex (<<>>: around w), xatol, fatol      *)
(* coefficients as <<numerator, denominator>>                               *)
Coef(ad, n) == IF ad THEN [chi |-> <<n + 2, n>>, psi |-> <<3 * n - 2, 4 * n>>, sigma |-> <<n - 1, n>>]
               ELSE [chi |-> <<2, 1>>, psi |-> <<1, 2>>, sigma |-> <<1, 2>>]
Frac(x, c) == DivR(x * c[1], c[2])
FirstSimplex(cfg, small) ==
  LET x == Proj(cfg, cfg.w)
      bump(k) == [x EXCEPT ![k] = IF x[k] = 0 THEN small ELSE DivR(x[k] * 21, 20)]
  IN  IF cfg.simplex # <<>> THEN [i \in 1..Len(cfg.simplex) |-> Proj(cfg, cfg.simplex[i])]
      ELSE [i \in 1..(cfg.n + 1) |-> Proj(cfg, IF i = 1 THEN x ELSE bump(i - 1))]
(* every way to order the vertices by value *)
Orders(f) == {p \in Permutations(1..Len(f)) : \A i \in 1..(Len(f) - 1) : f[p[i]] <= f[p[i + 1]]}
Sorted(sim, fsim) == {[sim |-> [i \in 1..Len(sim) |-> sim[p[i]]], fsim |-> [i \in 1..Len(sim) |-> fsim[p[i]]]] : p \in Orders(fsim)}
Centroid(cfg, sim) == [i \in 1..cfg.n |-> DivR(SumS([k \in 1..cfg.n |-> sim[k][i]]), cfg.n)]
Along(cfg, from, to, c) == Proj(cfg, [i \in 1..cfg.n |-> from[i] + Frac(to[i] - from[i], c)])
Spread(cfg, sim) == Max({Abs(sim[k][i] - sim[1][i]) : k \in 2..(cfg.n + 1), i \in 1..cfg.n})
Gap(cfg, fsim) == Max({Abs(fsim[k] - fsim[1]) : k \in 2..(cfg.n + 1)})
(* "yes", "no", or "either" when rounding decides *)
Converged(cfg, st, small) ==
  IF Spread(cfg, st.sim) > cfg.xatol + small \/ Gap(cfg, st.fsim) > cfg.fatol THEN {FALSE}
  ELSE IF Spread(cfg, st.sim) < cfg.xatol - small THEN {TRUE} ELSE {TRUE, FALSE}
WithWorst(cfg, st, x, f) == [sim |-> [st.sim EXCEPT ![cfg.n + 1] = x], fsim |-> [st.fsim EXCEPT ![cfg.n + 1] = f]]
(* One iteration from the sorted simplex st after the evaluations ev        *)
(* (<<point, value>>): the next point, or the new simplex.                  *)
Need(x) == [done |-> FALSE, x |-> x]
Done(st) == [done |-> TRUE, sim |-> st.sim, fsim |-> st.fsim]
Shrunk(cfg, st, co, k) == Along(cfg, st.sim[1], st.sim[k], co.sigma)
Iterate(cfg, st, ev) ==
  LET n == cfg.n
      co == Coef(cfg.adaptive, n)
      bar == Centroid(cfg, st.sim)
      worst == st.sim[n + 1]
      refl == Proj(cfg, [i \in 1..n |-> 2 * bar[i] - worst[i]])
      shrink(from) ==
        IF Len(ev) < from + n THEN Need(Shrunk(cfg, st, co, Len(ev) - from + 2))
        ELSE Done([sim |-> [k \in 1..(n + 1) |-> IF k = 1 THEN st.sim[1] ELSE ev[from + k - 1][1]],
                   fsim |-> [k \in 1..(n + 1) |-> IF k = 1 THEN st.fsim[1] ELSE ev[from + k - 1][2]]])
  IN  IF ev = <<>> THEN Need(refl)
      ELSE LET fr == ev[1][2] IN
        CASE fr < st.fsim[1] ->
               IF Len(ev) = 1 THEN Need(Proj(cfg, [i \in 1..n |-> bar[i] + Frac(bar[i] - worst[i], co.chi)]))
               ELSE IF ev[2][2] < fr THEN Done(WithWorst(cfg, st, ev[2][1], ev[2][2]))
               ELSE Done(WithWorst(cfg, st, ev[1][1], fr))
          [] fr >= st.fsim[1] /\ fr < st.fsim[n] -> Done(WithWorst(cfg, st, ev[1][1], fr))
          [] fr >= st.fsim[1] /\ fr >= st.fsim[n] /\ fr < st.fsim[n + 1] ->
               IF Len(ev) = 1 THEN Need(Proj(cfg, [i \in 1..n |-> bar[i] + Frac(bar[i] - worst[i], co.psi)]))
               ELSE IF ev[2][2] <= fr THEN Done(WithWorst(cfg, st, ev[2][1], ev[2][2]))
               ELSE shrink(2)
          [] OTHER ->
               IF Len(ev) = 1 THEN Need(Along(cfg, bar, worst, co.psi))
               ELSE IF ev[2][2] < st.fsim[n + 1] THEN Done(WithWorst(cfg, st, ev[2][1], ev[2][2]))
               ELSE shrink(2)

(* -------------------------------------------------------- Rotosolve ---- *)
(* The loss is a sum of terms  k * cos(w_i - t_i) * cos(w_j - t_j) * ...    *)
(* (angles in turns, units 1/Sc).  A term: [k, on: indices].                *)
(* From quarter turns off the offsets, every step is exact.                 *)
CosQ(d, sc) == LET r == d % sc IN IF r = 0 THEN 1 ELSE IF 2 * r = sc THEN 0 - 1 ELSE 0
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Coeff(cfg, w, i) ==
  SumS([m \in 1..Len(cfg.terms) |->
         LET t == cfg.terms[m] IN
         IF \E j \in 1..Len(t.on) : t.on[j] = i
         THEN t.k * Prod([j \in 1..Len(t.on) |-> IF t.on[j] = i THEN 1 ELSE CosQ(w[t.on[j]] - cfg.t[t.on[j]], cfg.sc)])
         ELSE 0])
Occurs(cfg, i) == \E m \in 1..Len(cfg.terms) : \E j \in 1..Len(cfg.terms[m].on) : cfg.terms[m].on[j] = i
LossR(cfg, w) == SumS([m \in 1..Len(cfg.terms) |-> cfg.terms[m].k * Prod([j \in 1..Len(cfg.terms[m].on) |-> CosQ(w[cfg.terms[m].on[j]] - cfg.t[cfg.terms[m].on[j]], cfg.sc)])])
(* coordinate by coordinate to the minimum; a flat coordinate that occurs   *)
(* in the loss may end anywhere, which ends the prediction                  *)
RECURSIVE Roto(_, _, _)
Roto(cfg, w, i) ==
  IF i > Len(w) THEN [known |-> TRUE, w |-> w]
  ELSE LET k == Coeff(cfg, w, i) IN
       IF k = 0 THEN IF Occurs(cfg, i) THEN [known |-> FALSE, w |-> w] ELSE Roto(cfg, w, i + 1)
       ELSE Roto(cfg, [w EXCEPT ![i] = IF k > 0 THEN cfg.t[i] + cfg.sc \div 2 ELSE cfg.t[i]], i + 1)
NearTurn(a, b, sc, t) == LET r == (a - b) % sc IN r <= t \/ sc - r <= t
=============================================================================
