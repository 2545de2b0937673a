----------------------------- MODULE P10Machine -----------------------------
(* A model: a list of symbols and a weight for each; the operations on it   *)
(* and what it must know at any time.  Everything else a model keeps (the   *)
(* compiled functions, contraction paths, converted circuits) must not show. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [syms |-> <<>>, w |-> <<>>]
SetOf(xs) == {xs[i] : i \in 1..Len(xs)}
After(st, e) ==
  CASE e.op = "make" -> [syms |-> e.syms, w |-> <<>>]
    [] e.op = "init" -> [st EXCEPT !.w = <<>>]
    [] e.op = "weights" -> [st EXCEPT !.w = e.w]
    [] e.op = "load" -> [syms |-> e.syms, w |-> e.w]
    [] OTHER -> st
Weight(st, name) == st.w[CHOOSE i \in 1..Len(st.syms) : st.syms[i] = name]
Knows(st, names) == SetOf(names) \subseteq SetOf(st.syms)
(* ds: the diagrams of the case (with the names of their symbols); the      *)
(* answer to a batch is the tuple of the answers to its members             *)
BadOp(st, ds, e, Good(_, _, _)) ==
  IF e.op = "predict" THEN
       LET known == \A j \in 1..Len(e.batch) : Knows(st, ds[e.batch[j]].names)
       IN  (IF ~e.ok THEN IF known THEN {"predict:refused"} ELSE {}
            ELSE IF ~known THEN {"predict:unknown-symbol"}
            ELSE IF Len(e.out) # Len(e.batch) THEN {"predict:number"}
            ELSE IF \A j \in 1..Len(e.batch) : Good(st, ds[e.batch[j]], e.out[j]) THEN {} ELSE {"predict:value"})
           \cup (IF \A i \in 1..Len(ds) : ds[i].skel = e.skel[i] THEN {} ELSE {"predict:changed-diagram"})
  ELSE IF ~e.ok THEN {e.op \o ":refused"}
  ELSE CASE e.op = "make" ->
              (IF SetOf(e.syms) = UNION {SetOf(ds[i].names) : i \in SetOf(e.from)} THEN {} ELSE {"make:symbols"})
              \cup (IF Len(e.syms) = Cardinality(SetOf(e.syms)) THEN {} ELSE {"make:twice"})
              \cup (IF \A i \in 1..(Len(e.rank) - 1) : e.rank[i] <= e.rank[i + 1] THEN {} ELSE {"make:order"})
         [] e.op = "init" -> IF e.sizes = e.want THEN {} ELSE {"init:sizes"}
         [] e.op = "load" -> IF e.saved = e.syms THEN {} ELSE {"load:symbols"}
         [] OTHER -> {}
=============================================================================
