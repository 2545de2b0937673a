------------------------------- MODULE Serial -------------------------------
(* Serialisation.  Part one: a store of live objects and of documents.  An   *)
(* object has a value; dumping makes a document of that value, loading makes *)
(* a new object of the document's value, copying a new object of the value   *)
(* of an old one; editing an object in place gives that object, and no other *)
(* object or document, another value; scribbling on a document (editing the  *)
(* data it consists of) leaves every object alone.                           *)
(* Part two: the text of CCG categories.                                     *)
EXTENDS Naturals, Sequences, FiniteSets

Void == 0
(* o = [op, i, v]: i the object or document used, v the new value of an edit *)
After(st, o) ==
  CASE o.op = "dump" -> [st EXCEPT !.docs = Append(@, st.objs[o.i])]
    [] o.op = "load" -> [st EXCEPT !.objs = Append(@, st.docs[o.i])]
    [] o.op = "copy" -> [st EXCEPT !.objs = Append(@, st.objs[o.i])]
    [] o.op = "edit" -> [st EXCEPT !.objs[o.i] = o.v]
    [] o.op = "scribble" -> [st EXCEPT !.docs[o.i] = Void]
    [] OTHER -> st
Can(st, o) ==
  CASE o.op \in {"dump", "copy", "edit"} -> o.i \in 1..Len(st.objs)
    [] o.op \in {"load", "scribble"} -> o.i \in 1..Len(st.docs) /\ st.docs[o.i] # Void
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Categories: <<"e">>, <<"a", name>>, <<"c", result, slash, argument>>;     *)
(* names and texts are sequences of characters.                              *)
Special == {"(", ")", "/", "\\"}
Slashes == {"/", "\\"}
Conj == <<"[", "c", "o", "n", "j", "]">>
RECURSIVE Show(_)
Wrap(t) == IF t[1] = "c" THEN <<"(">> \o Show(t) \o <<")">> ELSE Show(t)
Show(t) == CASE t[1] = "e" -> <<"(", ")">>
             [] t[1] = "a" -> t[2]
             [] OTHER -> Wrap(t[2]) \o <<t[3]>> \o Wrap(t[4])
RECURSIVE Pretty(_)
PWrap(t) == IF t[1] = "c" THEN <<"(">> \o Pretty(t) \o <<")">> ELSE Pretty(t)
Pretty(t) == CASE t[1] = "e" -> <<"(", ")">>
               [] t[1] = "a" -> t[2]
               [] t[3] = "/" -> PWrap(t[2]) \o <<"over">> \o PWrap(t[4])
               [] OTHER -> PWrap(t[4]) \o <<"under">> \o PWrap(t[2])

No == [ok |-> FALSE, t |-> <<"e">>, e |-> 0]
Yes(t, e) == [ok |-> TRUE, t |-> t, e |-> e]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "end"
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i > Len(s) THEN i ELSE IF s[i] \in Special THEN i ELSE NameEnd(s, i + 1)
(* operand ::= "()" | name | "(" category ")";                               *)
(* category ::= operand [slash operand]; top ::= category ["[conj]"]         *)
RECURSIVE Category(_, _), Operand(_, _)
Operand(s, i) ==
  IF At(s, i) = "(" THEN
    IF At(s, i + 1) = ")" THEN Yes(<<"e">>, i + 2)
    ELSE LET r == Category(s, i + 1)
         IN  IF r.ok /\ At(s, r.e) = ")" THEN Yes(r.t, r.e + 1) ELSE No
  ELSE LET e == NameEnd(s, i)
       IN  IF e = i \/ At(s, e) = "(" THEN No ELSE Yes(<<"a", SubSeq(s, i, e - 1)>>, e)
Category(s, i) ==
  LET r == Operand(s, i)
  IN  IF ~r.ok THEN No
      ELSE IF At(s, r.e) \in Slashes
      THEN LET a == Operand(s, r.e + 1)
           IN  IF a.ok THEN Yes(<<"c", r.t, At(s, r.e), a.t>>, a.e) ELSE No
      ELSE r
Conjoined(s) == Len(s) >= 6 /\ SubSeq(s, Len(s) - 5, Len(s)) = Conj
Read(s) ==
  LET cj == Conjoined(s)
      b == IF cj THEN SubSeq(s, 1, Len(s) - 6) ELSE s
      r == Category(b, 1)
  IN  IF ~(r.ok /\ r.e = Len(b) + 1) THEN No
      ELSE IF cj THEN Yes(<<"c", r.t, "\\", r.t>>, r.e) ELSE r
(* an atomic name can be written down if it is not empty, has no special     *)
(* character and does not look like a conjunction                            *)
RECURSIVE Writable(_)
Writable(t) == CASE t[1] = "e" -> TRUE
                 [] t[1] = "a" -> t[2] # <<>> /\ {t[2][k] : k \in 1..Len(t[2])} \cap Special = {}
                 [] OTHER -> Writable(t[2]) /\ Writable(t[4])
RoundTrips(t) == Writable(t) /\ ~Conjoined(Show(t))
RECURSIVE Mapped(_, _, _)
Mapped(t, from, to) ==
  CASE t[1] = "e" -> t
    [] t[1] = "a" -> IF t[2] = from THEN <<"a", to>> ELSE t
    [] OTHER -> <<"c", Mapped(t[2], from, to), t[3], Mapped(t[4], from, to)>>
=============================================================================
