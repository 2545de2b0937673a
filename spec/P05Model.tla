------------------------------ MODULE P05Model ------------------------------
(* Laws of the value operator itself, over all small tensor diagrams.      *)
EXTENDS Tensors
CONSTANTS MaxLayers, MaxWidth
VARIABLES d
i0 == <<0, 1>>
F == [k |-> "box", d |-> <<2>>, c |-> <<3>>, z |-> 0, dg |-> 0,
      data |-> <<G1, i0, G0, <<2, -1>>, G1, <<-1, 0>>>>]
G == [k |-> "box", d |-> <<3, 2>>, c |-> <<2>>, z |-> 0, dg |-> 0,
      data |-> <<G1, G0, i0, <<1, 1>>, G0, G1, <<2, 0>>, G0, G1, G1, <<0, -1>>, G0>>]
Str(k, dd, cc) == [k |-> k, d |-> dd, c |-> cc, z |-> 0, dg |-> 0, data |-> <<>>]
Bx == {F, G, [F EXCEPT !.d = <<3>>, !.c = <<2>>, !.dg = 1], [G EXCEPT !.d = <<2, 3>>, !.z = 1],
       Str("cup", <<2, 2>>, <<>>), Str("cup", <<3, 3>>, <<>>), Str("cap", <<>>, <<3, 3>>), Str("cap", <<>>, <<2, 2>>),
       Str("swap", <<2, 3>>, <<3, 2>>), Str("spider", <<3>>, <<3, 3>>), Str("spider", <<2, 2>>, <<2>>)}
Init == d \in {[dom |-> t, cod |-> t, layers |-> <<>>] : t \in {<<>>, <<2>>, <<3, 2>>}}
Next == /\ Len(d.layers) < MaxLayers
        /\ \E b \in Bx : \E i \in 0..(Len(d.cod) - Len(b.d)) :
             /\ SubSeq(d.cod, i + 1, i + Len(b.d)) = b.d
             /\ Len(d.cod) - Len(b.d) + Len(b.c) <= MaxWidth
             /\ LET L == SubSeq(d.cod, 1, i)
                    R == SubSeq(d.cod, i + Len(b.d) + 1, Len(d.cod))
                IN  d' = [dom |-> d.dom, cod |-> L \o b.c \o R,
                          layers |-> Append(d.layers, [L |-> L, b |-> b, R |-> R])]
Spec == Init /\ [][Next]_d
DagB(b) == IF b.k = "cup" THEN Str("cap", <<>>, b.d) ELSE IF b.k = "cap" THEN Str("cup", b.c, <<>>)
           ELSE IF b.k \in {"swap", "spider"} THEN Str(b.k, b.c, b.d)
           ELSE [b EXCEPT !.d = b.c, !.c = b.d, !.dg = 1 - b.dg]
RotB(b) == IF b.k # "box" THEN Str(b.k, Rev(b.d), Rev(b.c))
           ELSE [b EXCEPT !.d = Rev(b.d), !.c = Rev(b.c), !.z = b.z + 1]
Dg(x) == [dom |-> x.cod, cod |-> x.dom, layers |-> [i \in 1..Len(x.layers) |->
            LET y == x.layers[Len(x.layers) + 1 - i] IN [L |-> y.L, b |-> DagB(y.b), R |-> y.R]]]
Rt(x) == [dom |-> Rev(x.dom), cod |-> Rev(x.cod), layers |-> [i \in 1..Len(x.layers) |->
            LET y == x.layers[i] IN [L |-> Rev(y.R), b |-> RotB(y.b), R |-> Rev(y.L)]]]
Typed == TypedT(d) /\ TypedT(Dg(d)) /\ TypedT(Rt(d))
DagOK == Value(Dg(d)) = MDag(Value(d))
RotOK == Value(Rt(d)) = MRot(Value(d), d.dom, d.cod)
RotTwice == Value(Rt(Rt(d))) = Value(d)
(* a snake on the last wire changes nothing *)
SnakeOK == Len(d.cod) > 0 =>
  LET n == d.cod[Len(d.cod)]
      L == SubSeq(d.cod, 1, Len(d.cod) - 1)
      s == [d EXCEPT !.layers = @ \o <<[L |-> d.cod, b |-> Str("cap", <<>>, <<n, n>>), R |-> <<>>],
                                       [L |-> L, b |-> Str("cup", <<n, n>>, <<>>), R |-> <<n>>]>>]
  IN  Value(s) = Value(d)
Compose == Len(d.layers) >= 2 =>
  LET x == [d EXCEPT !.layers = <<@[1]>>, !.cod = d.layers[1].L \o d.layers[1].b.c \o d.layers[1].R]
      y == [dom |-> x.cod, cod |-> d.cod, layers |-> Tail(d.layers)]
  IN  Value(d) = MMul(Value(x), Value(y))
=============================================================================
