------------------------------ MODULE P22Trace ------------------------------
(* Recorded text renderings of pregroup sentences.  A case is a sentence; an   *)
(* event is its rendering with some options.                                   *)
EXTENDS Text, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l

(* how many lines a drawing with one box per row may take                    *)
Count(d, k) == Cardinality({j \in 1..Len(d.layers) : d.layers[j].b.k = k})
Rendered(x, e) ==
  LET s == Run(x.d)
      rows == e.rows
      n == Len(e.words)
      segs == Segments(rows[2])
      k0(k) == segs[k][1]
      k1(k) == segs[k][2]
      g == SubSeq(rows, 4, Len(rows))
      width(k) == IF k = 1 THEN 0 ELSE k0(k) - k1(k - 1) - 1
      tstart(k) == FirstOf(Filled(rows[3], k0(k), k1(k)))
      outside(r) == \A cc \in 1..Len(rows[r]) : rows[r][cc] # " " => \E k \in 1..n : cc \in k0(k)..k1(k)
      (* wire p is the j-th of word k                                        *)
      nth(p) == p - Cardinality({q \in 1..Len(s.own) : s.own[q] < s.own[p]})
      tcol(p) == LET k == s.own[p] IN ColumnOf(x.types[k], e.sep, tstart(k), nth(p))
      under(p) == {cc \in tcol(p)..(tcol(p) + Len(x.types[s.own[p]][nth(p)]) - 1) : At(g, 1, cc) \in {"v", "bl", "br"}}
  IN  IF ~e.ok THEN {"refused"}
      ELSE IF ~s.ok THEN {"not-a-sentence"}
      ELSE IF Len(rows) < 3 THEN {"no-heading"}
      ELSE IF Len(segs) # n THEN {"words-not-underlined"}
      ELSE IF \E k \in 1..n : Written(rows[1], k0(k), k1(k)) # e.words[k] THEN {"words"}
      ELSE IF \E k \in 1..n : Written(rows[3], k0(k), k1(k)) # Join(x.types[k], e.sep) THEN {"types"}
      ELSE IF ~outside(1) \/ ~outside(3) THEN {"heading"}
      ELSE IF \E p \in 1..Len(s.own) : Cardinality(under(p)) # 1 THEN {"no-wire-under-type"}
      ELSE UNION {
        Shows(g, [p \in 1..Len(s.own) |-> CHOOSE cc \in under(p) : TRUE], s),
        IF \E k \in 2..n : width(k) # e.spacing THEN {"spacing"} ELSE {},
        IF ~e.compress /\ \E r \in 1..Len(g) : Cardinality({cc \in 1..Len(g[r]) : g[r][cc] = "br"}) > 1 THEN {"several-boxes-in-a-row"} ELSE {},
        IF e.compress /\ Len(g) > 1 + Count(x.d, "cup") + 2 * Count(x.d, "swap") THEN {"too-many-rows"} ELSE {},
        IF e.ascii /\ ~e.pure THEN {"not-ascii"} ELSE {}}

Bad(x, e) == IF e.op = "render" THEN Rendered(x, e)
             ELSE (* not a pregroup sentence *) IF e.ok THEN {"accepted"} ELSE IF e.err \in {"ValueError", "NotImplementedError"} THEN {} ELSE {"other-error"}
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
           IN  \A b \in Bad(Cases[c], e) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
