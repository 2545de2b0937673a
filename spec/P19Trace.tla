------------------------------ MODULE P19Trace ------------------------------
(* An interrupted and resumed run repeats, event by event, the run that was *)
(* never interrupted.  ref: the events of the uninterrupted run; runs: the  *)
(* events of the interrupted one, with "crash" and "start" in between.      *)
(* The events of the uninterrupted run define the state machine: p is the   *)
(* next event, mark the event after the last saved epoch.                   *)
(* restore cases: a saved and a restored model agree.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, p, mark
C == Cases[c]
Near(a, b) == a - b <= 2 /\ b - a <= 2
Nums(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Diff(a, b) ==
  IF a.op # b.op THEN {a.op \o ":out-of-place"}
  ELSE UNION {IF a.ids = b.ids THEN {} ELSE {a.op \o ":data"},
              IF Nums(a.nums, b.nums) THEN {} ELSE {a.op \o ":values"},
              IF {a.parts[i][1] : i \in 1..Len(a.parts)} = {b.parts[i][1] : i \in 1..Len(b.parts)} THEN {} ELSE {a.op \o ":parts"}}
  \cup (IF Len(a.parts) # Len(b.parts) THEN {}
        ELSE {a.op \o ":" \o a.parts[i][1] : i \in {i \in 1..Len(a.parts) : a.parts[i][1] = b.parts[i][1] /\ ~Nums(a.parts[i][2], b.parts[i][2])}})
Bad(e) ==
  CASE e.op = "start" -> {}
    [] e.op = "crash" -> {}
    [] e.op = "error" -> {"error"}
    [] e.op = "restore" -> UNION {IF e.syms[1] = e.syms[2] THEN {} ELSE {e.what \o ":symbols"},
                                  IF Nums(e.w[1], e.w[2]) THEN {} ELSE {e.what \o ":weights"},
                                  IF Nums(e.pred[1], e.pred[2]) THEN {} ELSE {e.what \o ":predictions"}}
    [] OTHER -> IF p > Len(C.ref) THEN {e.op \o ":after-the-end"} ELSE Diff(e, C.ref[p])
Init == c \in 1..Len(Cases) /\ l = 1 /\ p = 1 /\ mark = 1
Next == /\ l <= Len(C.events)
        /\ LET e == C.events[l]
               bad == Bad(e)
           IN  /\ \A x \in bad : PrintT("@@FAIL|" \o ToString(c) \o "|" \o x \o "|" \o C.what \o " event " \o ToString(l))
               /\ l' = IF bad = {} THEN l + 1 ELSE Len(C.events) + 1
               /\ p' = IF e.op \in {"crash", "start"} THEN mark ELSE IF e.op \in {"restore", "error"} THEN p ELSE p + 1
               /\ mark' = IF e.op = "saved" THEN p + 1 ELSE mark
        /\ IF l' = Len(C.events) + 1 THEN PrintT("@@DONE|" \o ToString(Len(C.events))) ELSE TRUE
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l, p, mark>>
=============================================================================
