------------------------------ MODULE P10Model ------------------------------
(* A model that keeps what it compiled for a diagram: for each diagram the  *)
(* positions of its symbols among the model's symbols at that time, and of  *)
(* the weights it has seen last.  All histories of setting weights, loading *)
(* one of two checkpoints and predicting are explored; the answers (which   *)
(* weight each diagram used) must be those of a model without a memory.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen
Names == <<"a", "b", "c">>
Needs == <<<<"a", "b">>, <<"b", "a">>, <<"c">>, <<"b", "c">>>>      \* per diagram, in order of use
Points == <<[syms |-> <<"a", "b", "c">>, w |-> <<2, 4, 6>>], [syms |-> <<"0", "b", "c">>, w |-> <<3, 5, 1>>]>>
Ops == [op : {"predict"}, arg : {<<1>>, <<2>>, <<3, 1>>, <<2, 4, 2>>}] \cup [op : {"weights"}, arg : {<<1, 2, 3>>, <<5, 5, 0>>}] \cup [op : {"load"}, arg : {<<1>>, <<2>>}]
VARIABLES hist, syms, w, memo, answers
vars == <<hist, syms, w, memo, answers>>
Init == hist = <<>> /\ syms = Points[1].syms /\ w = <<0, 0, 0>> /\ memo = <<>> /\ answers = <<>>
Where(n, ss) == {i \in 1..Len(ss) : ss[i] = n}
CanRun(d) == \A i \in 1..Len(Needs[d]) : Where(Needs[d][i], syms) # {}
Compile(d) == [i \in 1..Len(Needs[d]) |-> CHOOSE p \in Where(Needs[d][i], syms) : TRUE]
Direct(d) == [i \in 1..Len(Needs[d]) |-> w[CHOOSE p \in Where(Needs[d][i], syms) : TRUE]]
Step(o) ==
  /\ hist' = Append(hist, o)
  /\ CASE o.op = "weights" -> w' = o.arg /\ UNCHANGED <<syms, memo, answers>>
       [] o.op = "load" -> syms' = Points[o.arg[1]].syms /\ w' = Points[o.arg[1]].w /\ memo' = <<>> /\ UNCHANGED answers
       [] o.op = "predict" ->
            LET ds == {o.arg[i] : i \in 1..Len(o.arg)}
            IN  IF \E d \in ds : ~CanRun(d) THEN answers' = Append(answers, [ok |-> FALSE, got |-> <<>>, want |-> <<>>]) /\ UNCHANGED <<syms, w, memo>>
                ELSE LET m2 == [d \in ds \cup DOMAIN memo |-> IF d \in DOMAIN memo THEN memo[d] ELSE Compile(d)]
                         run(d) == [i \in 1..Len(m2[d]) |-> w[m2[d][i]]]
                     IN  /\ memo' = m2
                         /\ answers' = Append(answers, [ok |-> TRUE, got |-> [i \in 1..Len(o.arg) |-> run(o.arg[i])], want |-> [i \in 1..Len(o.arg) |-> Direct(o.arg[i])]])
                         /\ UNCHANGED <<syms, w>>
Next == Len(hist) < MaxLen /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars
Memoryless == \A i \in 1..Len(answers) : answers[i].ok => answers[i].got = answers[i].want
Report == IF Len(hist) = MaxLen /\ hist[MaxLen].op = "predict" THEN PrintT("@@RUN|" \o ToJson(hist)) ELSE TRUE
=============================================================================
