------------------------------ MODULE Picture ------------------------------
(***************************************************************************)
(* Drawings of diagrams.  A picture is what is on the paper: polygons (by   *)
(* their bounds l, r, b, t), lines (x1, y1, x2, y2, from top to bottom),    *)
(* dots and texts; all coordinates are integers.  Reading a picture means   *)
(* following its lines from port to port: the lines that end on the upper   *)
(* side of a polygon, from left to right, are the inputs of the box of that *)
(* name, those on its lower side its outputs; free upper ends are inputs of *)
(* the diagram, free lower ends its outputs; two lines that meet and go on  *)
(* downwards cross; lines that meet at a dot are all joined.  The picture   *)
(* shows a diagram if reading it gives the ports and the wiring of the      *)
(* diagram, and nothing in it is in the way of anything else.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == { s[i] : i \in DOMAIN s }
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b

(* ----------------------------------------------------- the wiring of a diagram *)
(* d = [dom, cod, layers : Seq([k, n, off, d, c])], where k is box, swap, cup, *)
(* cap or spider.  Every wire has a token; joins are sets of tokens.           *)
RECURSIVE Scan(_, _, _, _)
Scan(d, j, scan, joins) ==
  IF j > Len(d.layers)
  THEN joins \cup { {scan[i], <<"out", "", i>>} : i \in DOMAIN scan }
  ELSE
    LET y == d.layers[j]
        a == Len(y.d)  b == Len(y.c)
        ins == SubSeq(scan, y.off + 1, y.off + a)
        outs == CASE y.k = "box"    -> [i \in 1..b |-> <<"cod", y.n, i>>]
                  [] y.k = "swap"   -> <<ins[2], ins[1]>>
                  [] OTHER          -> [i \in 1..b |-> <<"mid", "", j>>]
        more == CASE y.k = "box"    -> { {ins[i], <<"dom", y.n, i>>} : i \in 1..a }
                  [] y.k = "cup"    -> { {ins[1], ins[2]} }
                  [] y.k = "spider" -> { {ins[i], <<"mid", "", j>>} : i \in 1..a }
                  [] OTHER          -> {}
    IN Scan(d, j + 1, SubSeq(scan, 1, y.off) \o outs \o SubSeq(scan, y.off + a + 1, Len(scan)), joins \cup more)

Ports(d) == { <<"in", "", i>> : i \in 1..Len(d.dom) } \cup { <<"out", "", i>> : i \in 1..Len(d.cod) }
            \cup UNION { { <<"dom", y.n, i>> : i \in 1..Len(y.d) } \cup { <<"cod", y.n, i>> : i \in 1..Len(y.c) }
                         : y \in { z \in Rng(d.layers) : z.k = "box" } }

\* the sets of tokens that a set of joins makes one
RECURSIVE Spread(_, _)
Spread(S, joins) ==
  LET T == S \cup UNION { e \in joins : e \cap S # {} }
  IN  IF T = S THEN S ELSE Spread(T, joins)
RECURSIVE Parts(_, _)
Parts(V, joins) ==
  IF V = {} THEN {}
  ELSE LET S == Spread({CHOOSE v \in V : TRUE}, joins) IN {S} \cup Parts(V \ S, joins)

Wiring(d) == LET P == Ports(d)
                 J == Scan(d, 1, [i \in 1..Len(d.dom) |-> <<"in", "", i>>], {})
             IN { S \cap P : S \in Parts(P, J) }

(* ------------------------------------------------------- reading a picture *)
\* ends of lines: <<line, 1>> is the upper, <<line, 2>> the lower
Ends(pic) == (1..Len(pic.lines)) \X {1, 2}
At(pic, e) == LET w == pic.lines[e[1]] IN IF e[2] = 1 THEN <<w[1], w[2]>> ELSE <<w[3], w[4]>>
Far(pic, e) == At(pic, <<e[1], 3 - e[2]>>)

OnTop(p, q) == q[2] = p.t /\ p.l <= q[1] /\ q[1] <= p.r
OnBottom(p, q) == q[2] = p.b /\ p.l <= q[1] /\ q[1] <= p.r
Within(p, x, y) == p.l < x /\ x < p.r /\ p.b < y /\ y < p.t

\* lines that come in at the upper side of a polygon, and leave at its lower side
Into(pic, p) == { e \in Ends(pic) : e[2] = 2 /\ OnTop(p, At(pic, e)) }
OutOf(pic, p) == { e \in Ends(pic) : e[2] = 1 /\ OnBottom(p, At(pic, e)) }
Rank(pic, S, e) == Cardinality({ f \in S : At(pic, f)[1] <= At(pic, e)[1] })

Names(pic, p) == { x \in Rng(pic.texts) : Within(p, x.x, x.y) }
Name(pic, p) == (CHOOSE x \in Names(pic, p) : TRUE).s

AtBox(pic) == UNION { Into(pic, p) \cup OutOf(pic, p) : p \in Rng(pic.polys) }
\* a picture together with the ends of lines that are not at a box
Seen(pic) == [polys |-> pic.polys, lines |-> pic.lines, dots |-> pic.dots, texts |-> pic.texts, free |-> Ends(pic) \ AtBox(pic)]
Dots(pic) == Rng(pic.dots)
\* the ends that meet at a point, by the side from which the lines come
Meet(pic, q) == { e \in pic.free : At(pic, e) = q }
From(S, k) == { e \in S : e[2] = k }
Kind(pic, q) ==
  LET S == Meet(pic, q)  a == Cardinality(From(S, 2))  b == Cardinality(From(S, 1))
  IN  IF q \in Dots(pic) THEN "dot"
      ELSE CASE a = 0 /\ b = 1 -> "in"
             [] a = 1 /\ b = 0 -> "out"
             [] a = 1 /\ b = 1 -> "on"
             [] a = 2 /\ b = 0 -> "cup"
             [] a = 0 /\ b = 2 -> "cap"
             [] a = 2 /\ b = 2 -> "cross"
             [] OTHER -> "?"
Points(pic) == { At(pic, e) : e \in pic.free }

LeftOf(pic, S) == CHOOSE e \in S : \A f \in S : Far(pic, e)[1] <= Far(pic, f)[1]
\* what is joined at a point
Joined(pic, q) ==
  LET S == Meet(pic, q) a == From(S, 2) b == From(S, 1)
  IN  IF Kind(pic, q) = "cross"
      THEN LET la == LeftOf(pic, a) lb == LeftOf(pic, b) ra == CHOOSE e \in a : e # la  rb == CHOOSE e \in b : e # lb
           IN  { {la, rb}, {ra, lb} }
      ELSE {S}

Port(pic, e, ins, outs, pts) ==     \* the port at an end of a line, if there is one
  LET q == At(pic, e)
      T == { p \in Rng(pic.polys) : e \in Into(pic, p) }
      B == { p \in Rng(pic.polys) : e \in OutOf(pic, p) }
  IN  IF T # {} THEN LET p == CHOOSE p \in T : TRUE IN { <<"dom", Name(pic, p), Rank(pic, Into(pic, p), e)>> }
      ELSE IF B # {} THEN LET p == CHOOSE p \in B : TRUE IN { <<"cod", Name(pic, p), Rank(pic, OutOf(pic, p), e)>> }
      ELSE IF e \in ins THEN { <<"in", "", Rank(pic, ins, e)>> }
      ELSE IF e \in outs THEN { <<"out", "", Rank(pic, outs, e)>> }
      ELSE {}

Free(pic, k, pts) == UNION { Meet(pic, q) : q \in { q \in pts : Kind(pic, q) = k } }

Read(pic) ==
  LET pts == Points(pic)
      ins == Free(pic, "in", pts)
      outs == Free(pic, "out", pts)
      J == { {<<i, 1>>, <<i, 2>>} : i \in 1..Len(pic.lines) } \cup UNION { Joined(pic, q) : q \in pts }
      port == [e \in Ends(pic) |-> Port(pic, e, ins, outs, pts)]
  IN  { UNION { port[e] : e \in S } : S \in Parts(Ends(pic), J) } \ {{}}

(* ------------------------------------------------- nothing is in the way *)
Box(pic, y) == CHOOSE p \in Rng(pic.polys) : Name(pic, p) = y.n
Extent(w) == [l |-> Lower(w[1], w[3]), r |-> Upper(w[1], w[3]), b |-> w[4], t |-> w[2]]
Strictly(lo, hi, LO, HI) == lo < HI /\ LO < hi       \* overlap of open intervals
Inside(lo, hi, x, LO, HI, X) ==                       \* overlap in one direction, of a stretch or of a point
  IF X THEN (IF x THEN lo = LO ELSE LO < hi /\ lo < HI) ELSE Strictly(lo, hi, LO, HI)
Clash(A, B) ==
  /\ Strictly(A.b, A.t, B.b, B.t)
  /\ IF A.l = A.r /\ B.l = B.r THEN A.l = B.l ELSE Strictly(A.l, A.r, B.l, B.r)
Meets(pic, i, j) == { <<pic.lines[i][1], pic.lines[i][2]>>, <<pic.lines[i][3], pic.lines[i][4]>> }
                    \cap { <<pic.lines[j][1], pic.lines[j][2]>>, <<pic.lines[j][3], pic.lines[j][4]>> } # {}
Slanted(w) == w[1] # w[3]

\* what is wrong with a picture of a diagram
Wrong(d, picture, foliated) ==
  LET pic == Seen(picture)
      boxes == { j \in 1..Len(d.layers) : d.layers[j].k = "box" }
      P == pic.polys
      N == 1..Len(P)
      L == 1..Len(pic.lines)
      named == \A i \in N : Cardinality(Names(pic, P[i])) = 1
      pts == Points(pic)
  IN
  IF \E i \in L : pic.lines[i][2] <= pic.lines[i][4] THEN {"upwards"}
  ELSE IF ~named \/ Len(P) # Cardinality(boxes) \/ { Name(pic, p) : p \in Rng(P) } # { d.layers[j].n : j \in boxes } THEN {"boxes"}
  ELSE (IF \E i, j \in N : i < j /\ Clash(P[i], P[j]) THEN {"boxes-overlap"} ELSE {})
  \cup (IF \E i \in L, j \in N : Clash(Extent(pic.lines[i]), P[j]) THEN {"line-through-box"} ELSE {})
  \cup (IF \E i, j \in L : i < j /\ Clash(Extent(pic.lines[i]), Extent(pic.lines[j]))
                           /\ ~(Meets(pic, i, j) /\ (Slanted(pic.lines[i]) \/ Slanted(pic.lines[j]))) THEN {"lines-overlap"} ELSE {})
  \cup (IF \E e, f \in AtBox(pic) : e # f /\ At(pic, e) = At(pic, f) /\ e[2] = f[2] THEN {"shared-port"} ELSE {})
  \cup (IF \E q \in pts : Kind(pic, q) = "?" THEN {"junction"} ELSE {})
  \cup (IF Cardinality(Dots(pic)) # Cardinality({ j \in 1..Len(d.layers) : d.layers[j].k = "spider" }) THEN {"dots"} ELSE {})
  \cup (IF Read(pic) # Wiring(d) THEN {"wiring"} ELSE {})
  \* inputs come from the top of the picture, outputs go to the bottom
  \cup (LET ys == { pic.lines[i][2] : i \in L } \cup { P[i].t : i \in N }
            zs == { pic.lines[i][4] : i \in L } \cup { P[i].b : i \in N }
        IN  IF \/ \E e \in Free(pic, "in", pts) : \E y \in ys : y > At(pic, e)[2]
               \/ \E e \in Free(pic, "out", pts) : \E y \in zs : y < At(pic, e)[2] THEN {"margins"} ELSE {})
  \* foliated: a row for every box
  \cup (IF foliated /\ \E i, j \in boxes : i < j /\ Box(pic, d.layers[j]).t > Box(pic, d.layers[i]).b THEN {"rows"} ELSE {})

\* the types of the inputs and of the outputs of boxes stand next to their lines
Near == 300
Labelled(pic, q, s) == \E x \in Rng(pic.texts) : x.s = s /\ x.x > q[1] /\ x.x < q[1] + Near /\ x.y <= q[2] /\ x.y > q[2] - Near
Labels(d, picture) ==
  LET pic == Seen(picture)
      ins == Free(pic, "in", Points(pic))
      ok(S, T) == \A e \in S : LET k == Rank(pic, S, e) IN k \in DOMAIN T /\ Labelled(pic, At(pic, e), T[k])
  IN  ok(ins, d.dom) /\ \A y \in { z \in Rng(d.layers) : z.k = "box" } : ok(OutOf(pic, Box(pic, y)), y.c)
=============================================================================
