----------------------------- MODULE P25Model -----------------------------
(***************************************************************************)
(* All small diagrams, layer by layer, and a drawing of each of them with a *)
(* row for every layer and a column for every wire.  That drawing shows the *)
(* diagram (so that what P25Trace asks of the real drawings can be had),    *)
(* and every picture in which two lines are exchanged does not.             *)
(***************************************************************************)
EXTENDS Picture, TLC, Json
CONSTANTS MaxLayers, MaxWires
VARIABLE d
Cod == d.cod

TypesOf(b) == [i \in 1..b |-> IF i % 2 = 1 THEN "n" ELSE "n.r"]
Replaced(off, a, c) == SubSeq(Cod, 1, off) \o c \o SubSeq(Cod, off + a + 1, Len(Cod))
Name_(j) == "b" \o ToString(j)
Add(k, off, a, c) ==
  /\ Len(Cod) - a + Len(c) <= MaxWires
  /\ d' = [d EXCEPT !.layers = Append(@, [k |-> k, n |-> IF k = "box" THEN Name_(Len(@) + 1) ELSE "", off |-> off,
                                         d |-> SubSeq(Cod, off + 1, off + a), c |-> c]),
                    !.cod = Replaced(off, a, c)]
Init == \E w \in 0..2 : d = [dom |-> TypesOf(w), cod |-> TypesOf(w), layers |-> <<>>]
Next ==
  /\ Len(d.layers) < MaxLayers
  /\ \E off \in 0..Len(Cod) :
     \/ \E a \in 0..2, b \in 0..2 : off + a <= Len(Cod) /\ Add("box", off, a, TypesOf(b))
     \/ off + 2 <= Len(Cod) /\ Add("swap", off, 2, <<Cod[off + 2], Cod[off + 1]>>)
     \/ off + 2 <= Len(Cod) /\ Cod[off + 1] = "n" /\ Cod[off + 2] = "n.r" /\ Add("cup", off, 2, <<>>)
     \/ Add("cap", off, 0, <<"n.r", "n">>)
     \/ off + 1 <= Len(Cod) /\ \E b \in {0, 2} : Add("spider", off, 1, [i \in 1..b |-> Cod[off + 1]])
     \/ off + 2 <= Len(Cod) /\ Cod[off + 1] = Cod[off + 2] /\ Add("spider", off, 2, <<Cod[off + 1]>>)
Spec == Init /\ [][Next]_d

(* ------------------------------------------------------------ the drawing *)
InsertAfter(s, k, t) == SubSeq(s, 1, k) \o t \o SubSeq(s, k + 1, Len(s))
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
RECURSIVE Lay(_, _)
Lay(j, st) ==
  IF j > Len(d.layers) THEN st
  ELSE
    LET y == d.layers[j]
        a == Len(y.d)  b == Len(y.c)
        ins == SubSeq(st.scan, y.off + 1, y.off + a)
        new == [i \in 1..b |-> <<j, i>>]
        own == IF a + b = 0 THEN << <<j, 0>> >> ELSE <<>>
        k == IF a > 0 THEN Pos(st.cols, ins[a]) ELSE IF y.off > 0 THEN Pos(st.cols, st.scan[y.off]) ELSE 0
        Y == -1000 * j
    IN Lay(j + 1, [scan |-> SubSeq(st.scan, 1, y.off) \o new \o SubSeq(st.scan, y.off + a + 1, Len(st.scan)),
                   cols |-> InsertAfter(st.cols, k, new \o own),
                   start |-> [c \in (DOMAIN st.start) \cup Rng(new) |-> IF c \in Rng(new) THEN Y - 250 ELSE st.start[c]],
                   lines |-> st.lines \o [i \in 1..a |-> <<ins[i], st.start[ins[i]], Y + 250>>],
                   spans |-> Append(st.spans, Rng(ins \o new \o own))])

X(st, c) == 1000 * Pos(st.cols, c)
Left(st, j) == CHOOSE x \in { X(st, c) : c \in st.spans[j] } : \A c \in st.spans[j] : X(st, c) >= x
Right(st, j) == CHOOSE x \in { X(st, c) : c \in st.spans[j] } : \A c \in st.spans[j] : X(st, c) <= x
RECURSIVE Joint(_)
Joint(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joint(Tail(ss))

Draw ==
  LET n == Len(d.layers)
      w == [i \in 1..Len(d.dom) |-> <<0, i>>]
      st == Lay(1, [scan |-> w, cols |-> w, start |-> [c \in Rng(w) |-> 0], lines |-> <<>>, spans |-> <<>>])
      all == st.lines \o [i \in 1..Len(st.scan) |-> <<st.scan[i], st.start[st.scan[i]], -1000 * (n + 1)>>]
      mid(j) == (Left(st, j) + Right(st, j)) \div 2
      isbox(j) == d.layers[j].k = "box"
      legs(j) == LET y == d.layers[j] a == Len(y.d) b == Len(y.c) Y == -1000 * j
                     ends == { l \in Rng(all) : l[3] = Y + 250 }
                     ins == [i \in 1..a |-> CHOOSE x \in { X(st, l[1]) : l \in ends } : Cardinality({ l \in ends : X(st, l[1]) <= x }) = i]
                 IN IF isbox(j) THEN <<>>
                    ELSE [i \in 1..a |-> <<ins[i], Y + 250, mid(j), Y>>] \o [i \in 1..b |-> <<mid(j), Y, X(st, <<j, i>>), Y - 250>>]
      bs == SelectSeq([j \in 1..n |-> j], isbox)
      type(c) == IF c[1] = 0 THEN d.dom[c[2]] ELSE d.layers[c[1]].c[c[2]]
  IN [lines |-> [i \in 1..Len(all) |-> <<X(st, all[i][1]), all[i][2], X(st, all[i][1]), all[i][3]>>] \o Joint([j \in 1..n |-> legs(j)]),
      polys |-> [i \in DOMAIN bs |-> [l |-> Left(st, bs[i]) - 250, r |-> Right(st, bs[i]) + 250, b |-> -1000 * bs[i] - 250, t |-> -1000 * bs[i] + 250]],
      dots |-> [i \in 1..Cardinality({ j \in 1..n : d.layers[j].k = "spider" }) |->
                  LET S == { j \in 1..n : d.layers[j].k = "spider" } j == CHOOSE j \in S : Cardinality({ k \in S : k <= j }) = i
                  IN <<mid(j), -1000 * j>>],
      texts |-> [i \in DOMAIN bs |-> [s |-> d.layers[bs[i]].n, x |-> mid(bs[i]), y |-> -1000 * bs[i]]]
             \o [i \in 1..Len(all) |-> [s |-> type(all[i][1]), x |-> X(st, all[i][1]) + 100, y |-> all[i][2] - 100]]]

Shown == LET p == Draw IN Wrong(d, p, TRUE) = {} /\ Labels(d, p)

\* exchanging the lower ends of two lines shows another diagram, or none
Exchanged(p, i, j) == [p EXCEPT !.lines = [k \in DOMAIN p.lines |->
     LET w == p.lines[k] IN IF k = i THEN <<w[1], w[2], p.lines[j][3], p.lines[j][4]>>
                            ELSE IF k = j THEN <<w[1], w[2], p.lines[i][3], p.lines[i][4]>> ELSE w]]
Others == Len(d.layers) <= 2 =>
  LET p == Draw
  IN  \A i, j \in DOMAIN p.lines : (i < j /\ p.lines[i][4] # p.lines[j][4] /\ p.lines[i][2] # p.lines[j][2]
                                     /\ p.lines[i][2] > p.lines[j][4] /\ p.lines[j][2] > p.lines[i][4]) =>
        Wrong(d, Exchanged(p, i, j), TRUE) # {}

Emit == PrintT("@@RUN|" \o ToJson(d)) \in BOOLEAN
=============================================================================
