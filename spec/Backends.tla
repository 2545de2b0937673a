------------------------------ MODULE Backends ------------------------------
(* The selection of a numerical backend: a stack of scopes.                  *)
EXTENDS Integers, Sequences
Known == {"numpy", "jax", "pytorch"}
Top(st) == st[Len(st)]
Pop(st, n) == SubSeq(st, 1, Len(st) - n)
(* entering an unknown or unavailable backend fails and changes nothing      *)
Enter(st, b) == IF b = "" THEN Append(st, Top(st)) ELSE IF b \in Known THEN Append(st, b) ELSE st
Set(st, b) == [st EXCEPT ![Len(st)] = b]
(* what the parts of the library that select a backend themselves select     *)
Selects(who, st) ==
  CASE who = "compiled" -> "jax"
    [] who \in {"torch", "torchquantum", "torchfit"} -> "pytorch"
    [] who = "fit" -> "numpy"
    [] OTHER -> Top(st)
(* the scope in force after an operation                                     *)
After(st, e) ==
  CASE e.op = "enter" -> Enter(st, e.b)
    [] e.op = "exit" -> Pop(st, 1)
    [] e.op = "raise" -> Pop(st, e.n)
    [] e.op = "set" -> Set(st, e.b)
    [] OTHER -> st
=============================================================================
