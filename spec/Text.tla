------------------------------- MODULE Text -------------------------------
(* Pregroup sentences drawn with characters.  A picture is a sequence of rows, *)
(* a row a sequence of cells: "v" (vertical line), "h" (horizontal line),      *)
(* corners "bl" "br" "tl" "tr" (named by the corner of a box they would make), *)
(* " " (blank; in plain ASCII also the upper corners) or any other character.  *)
EXTENDS Pregroup

At(g, r, c) == IF r \in 1..Len(g) /\ c \in 1..Len(g[r]) THEN g[r][c] ELSE " "
LineOrCorner == {"h", "bl"}

(* ---- following a line --------------------------------------------------- *)
(* A wire goes along the lines.  A crossing takes two rows:   bl h tr h br     *)
(* the wire from the upper left turns at both its middle      tl h bl h tr     *)
(* cells, the other one passes behind them.                                    *)
RECURSIVE Go(_, _, _, _, _, _)
Go(g, dir, r, c, seen, fuel) ==
  LET x == At(g, r, c)
      go(d, rr, cc) == Go(g, d, rr, cc, seen \cup {<<r, c>>}, fuel - 1)
      lost == [end |-> "lost", c |-> c, seen |-> seen]
      (* behind the middle of a crossing: on in the row below or above         *)
      behind(d, rr, cc) == Go(g, d, rr, cc, seen \cup {<<r, c>>, <<rr, c>>}, fuel - 1)
  IN  IF fuel = 0 THEN lost
      ELSE CASE dir = "down" ->
                  IF r > Len(g) THEN [end |-> "out", c |-> c, seen |-> seen]
                  ELSE IF x = "v" THEN go("down", r + 1, c)
                  ELSE IF x = "bl" THEN go("right", r, c + 1)
                  ELSE IF x = "br" THEN go("left", r, c - 1)
                  ELSE lost
             [] dir = "up" ->
                  IF r = 0 THEN [end |-> "in", c |-> c, seen |-> seen]
                  ELSE IF x = "v" THEN go("up", r - 1, c)
                  ELSE IF x = "tr" \/ (x = " " /\ At(g, r, c - 1) \in LineOrCorner) THEN go("left", r, c - 1)
                  ELSE IF x = "tl" \/ (x = " " /\ At(g, r, c + 1) \in LineOrCorner) THEN go("right", r, c + 1)
                  ELSE lost
             [] dir = "right" ->
                  IF x = "h" THEN go("right", r, c + 1)
                  ELSE IF x = "br" THEN go("up", r - 1, c)
                  ELSE IF x \in {"tr", " "} THEN go("down", r + 1, c)
                  ELSE IF x = "bl" /\ At(g, r - 1, c) \in {"tr", " "} THEN behind("right", r - 1, c + 1)
                  ELSE lost
             [] OTHER ->
                  IF x = "h" THEN go("left", r, c - 1)
                  ELSE IF x = "bl" THEN go("up", r - 1, c)
                  ELSE IF x = "tl" THEN go("down", r + 1, c)
                  ELSE IF x \in {"tr", " "} /\ At(g, r + 1, c) = "bl" /\ At(g, r, c - 1) \in LineOrCorner
                    THEN behind("left", r + 1, c - 1)
                  ELSE IF x = " " THEN go("down", r + 1, c)
                  ELSE lost
Size(g) == LET W == {Len(g[r]) : r \in 1..Len(g)} \cup {1} IN 4 * (1 + Len(g)) * (CHOOSE w \in W : \A v \in W : v <= w)
Follows(g, c) == Go(g, "down", 1, c, {}, Size(g))

(* the drawing g with the wires starting in the columns cols (by number) shows *)
(* the links and open ends of the run s                                        *)
Shows(g, cols, s) ==
  LET f == [p \in 1..Len(cols) |-> Follows(g, cols[p])]
  IN  UNION {
        IF \A p \in 1..Len(cols) : f[p].end # "lost" THEN {} ELSE {"line-broken"},
        IF \A p \in Free(s) : f[p].end = "out" THEN {} ELSE {"output-not-drawn"},
        IF \A x \in s.links : f[x[1]].end = "in" /\ f[x[1]].c = cols[x[2]] /\ f[x[2]].end = "in" /\ f[x[2]].c = cols[x[1]]
          THEN {} ELSE {"link-not-drawn"},
        IF \A p, q \in Free(s) : (\E i, j \in 1..Len(s.line) : i < j /\ s.line[i] = p /\ s.line[j] = q) => f[p].c < f[q].c
          THEN {} ELSE {"order-of-outputs"},
        IF {<<r, c>> \in (1..Len(g)) \X (1..Size(g)) : c <= Len(g[r]) /\ g[r][c] # " "}
             \subseteq UNION {f[p].seen : p \in 1..Len(cols)} THEN {} ELSE {"stray-line"}}

(* ---- the heading -------------------------------------------------------- *)
Blank(row, a, b) == \A c \in a..b : c <= Len(row) => row[c] = " "
Stretches(row) == {<<a, b>> \in (1..Len(row)) \X (1..Len(row)) :
                     /\ a <= b /\ \A c \in a..b : row[c] = "h"
                     /\ (a = 1 \/ row[a - 1] # "h") /\ (b = Len(row) \/ row[b + 1] # "h")}
Segments(row) == SetToSortSeq(Stretches(row), LAMBDA x, y : x[1] < y[1])
Filled(row, a, b) == {c \in a..b : c <= Len(row) /\ row[c] # " "}
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Written(row, a, b) == LET F == Filled(row, a, b) IN IF F = {} THEN <<>> ELSE SubSeq(row, FirstOf(F), LastOf(F))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
(* first column of the j-th type when the list starts in column a            *)
RECURSIVE ColumnOf(_, _, _, _)
ColumnOf(q, sep, a, j) == IF j = 1 THEN a ELSE ColumnOf(Tail(q), sep, a + Len(q[1]) + Len(sep), j - 1)

(* ---- a plain drawing, one box after another, to test the above ----------- *)
Col(w) == 2 * w
RowOf(n, f(_)) == [c \in 1..n |-> f(c)]
CupRow(n, live, a, b) == RowOf(n, LAMBDA c : IF c = Col(a) THEN "bl" ELSE IF c = Col(b) THEN "br"
                                             ELSE IF Col(a) < c /\ c < Col(b) THEN "h"
                                             ELSE IF \E w \in live : Col(w) = c THEN "v" ELSE " ")
SwapRows(n, live, a, b, plain) ==
  LET m == (Col(a) + Col(b)) \div 2
      up(c) == IF c = Col(a) THEN "bl" ELSE IF c = Col(b) THEN "br" ELSE IF c = m THEN (IF plain THEN " " ELSE "tr")
               ELSE IF Col(a) < c /\ c < Col(b) THEN "h" ELSE IF \E w \in live : Col(w) = c THEN "v" ELSE " "
      dn(c) == IF c = Col(a) THEN (IF plain THEN " " ELSE "tl") ELSE IF c = Col(b) THEN (IF plain THEN " " ELSE "tr")
               ELSE IF c = m THEN "bl"
               ELSE IF Col(a) < c /\ c < Col(b) THEN "h" ELSE IF \E w \in live : Col(w) = c THEN "v" ELSE " "
  IN  <<RowOf(n, up), RowOf(n, dn)>>
=============================================================================
