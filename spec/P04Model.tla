------------------------------ MODULE P04Model ------------------------------
(* All histories of dumps, loads, copies and edits.                          *)
EXTENDS Serial, TLC, Json
CONSTANTS MaxOps, MaxObjs, MaxDocs
VARIABLES st, hist
vars == <<st, hist>>
Init == st = [objs |-> <<1>>, docs |-> <<>>] /\ hist = <<>>
Ops(n) == {[op |-> p, i |-> i, v |-> IF p = "edit" THEN 10 + n ELSE 0] :
           p \in {"dump", "load", "copy", "edit", "scribble"}, i \in 1..MaxObjs}
Fits(o) == /\ (o.op \in {"load", "copy"} => Len(st.objs) < MaxObjs)
           /\ (o.op = "dump" => Len(st.docs) < MaxDocs)
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops(Len(hist)) : /\ Can(st, o) /\ Fits(o)
                                     /\ hist' = Append(hist, o) /\ st' = After(st, o)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Where an object comes from, by the history alone.                         *)
RECURSIVE Count(_, _)
Count(S, k) == IF k = 0 THEN 0 ELSE Count(S, k - 1) + (IF hist[k].op \in S THEN 1 ELSE 0)
MakesObj == {"load", "copy"}
(* the value of object j after k operations                                  *)
RECURSIVE ObjValue(_, _), DocValue(_, _)
Creation(S, j) == CHOOSE k \in 1..Len(hist) : hist[k].op \in S /\ Count(S, k) = j
ObjValue(j, k) ==
  LET edits == {m \in 1..k : hist[m].op = "edit" /\ hist[m].i = j}
      birth == IF j = 1 THEN 0 ELSE Creation(MakesObj, j - 1)
  IN  IF edits # {} THEN 10 + (CHOOSE m \in edits : \A n \in edits : n <= m) - 1
      ELSE IF j = 1 THEN 1
      ELSE IF hist[birth].op = "copy" THEN ObjValue(hist[birth].i, birth - 1)
      ELSE DocValue(hist[birth].i, birth - 1)
DocValue(d, k) ==
  LET birth == Creation({"dump"}, d)
  IN  ObjValue(hist[birth].i, birth - 1)
Lineage == /\ \A j \in 1..Len(st.objs) : st.objs[j] = ObjValue(j, Len(hist))
           /\ \A d \in 1..Len(st.docs) : st.docs[d] # Void => st.docs[d] = DocValue(d, Len(hist))
Untouched == [][\A j \in 1..Len(st.objs) :
                  st'.objs[j] # st.objs[j] => hist'[Len(hist')].op = "edit" /\ hist'[Len(hist')].i = j]_vars
Again == \A m, n \in 1..Len(hist) :
  (hist[m].op = "load" /\ hist[n].op = "load" /\ hist[m].i = hist[n].i)
  => DocValue(hist[m].i, m - 1) = DocValue(hist[n].i, n - 1)
Emit == IF Len(hist) = MaxOps THEN PrintT("@@RUN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
