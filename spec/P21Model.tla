------------------------------ MODULE P21Model ------------------------------
(* All courses of selections, exits, exceptions and overrides.               *)
EXTENDS Backends, TLC, Json
CONSTANTS MaxOps, MaxDepth
VARIABLES st, hist
vars == <<st, hist>>
Init == st = <<"numpy">> /\ hist = <<>>
Ops == {[op |-> "enter", b |-> b, n |-> 0] : b \in Known \cup {"", "nosuch", "tensorflow"}}
       \cup {[op |-> "exit", b |-> "", n |-> 1]}
       \cup {[op |-> "raise", b |-> "", n |-> n] : n \in 1..MaxDepth}
       \cup {[op |-> "set", b |-> b, n |-> 0] : b \in Known}
       \cup {[op |-> "model", b |-> "", n |-> 0]}
Can(o) == CASE o.op = "enter" -> Len(st) <= MaxDepth
            [] o.op = "exit" -> Len(st) > 1
            [] o.op = "raise" -> o.n <= Len(st) - 1 /\ o.n < 3
            [] OTHER -> TRUE
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : Can(o) /\ hist' = Append(hist, o) /\ st' = After(st, o)
Spec == Init /\ [][Next]_vars
(* laws: leaving restores, whatever happened inside                          *)
RECURSIVE Depth(_, _)
Depth(h, k) == IF k = 0 THEN 1
               ELSE Depth(h, k - 1) + (CASE h[k].op = "enter" /\ h[k].b \in Known \cup {""} -> 1
                                         [] h[k].op \in {"exit", "raise"} -> 0 - h[k].n [] OTHER -> 0)
RECURSIVE Replay(_, _)
Replay(s, h) == IF h = <<>> THEN s ELSE Replay(After(s, h[1]), Tail(h))
DepthRight == Len(st) = Depth(hist, Len(hist)) /\ st # <<>>
Restored == \A i \in 0..(Len(hist) - 1) :
  (Depth(hist, i) = Len(st) /\ (\A j \in i..Len(hist) : Depth(hist, j) >= Len(st))
   /\ (\A j \in (i + 1)..Len(hist) : hist[j].op = "set" => Depth(hist, j) > Len(st)))
  => Top(st) = Top(Replay(<<"numpy">>, SubSeq(hist, 1, i)))
Emit == IF Len(hist) = MaxOps THEN PrintT("@@RUN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
