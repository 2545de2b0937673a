------------------------------ MODULE P24Model ------------------------------
(* Histories of two command lines: the first stores its options, the second *)
(* loads them, with options of its own, and stores them again.              *)
EXTENDS Cli

CONSTANTS Depth, Deeper  \* how many options the command lines give

VARIABLES first, second
vars == <<first, second>>

Values(o) ==
  CASE o = "sentence" -> { <<"a b">> }
    [] o = "infile"   -> { <<"in.txt">> }
    [] o = "mode"     -> { <<"ccg">>, <<"pregroups">> }
    [] o = "format"   -> { <<"pickle">>, <<"image">>, <<"json">> }
    [] o = "image"    -> { <<"pdf">> }
    [] o = "uopts"    -> { <<"list", "fontsize", "9">> }
    [] o = "outfile"  -> { <<"out">> }
    [] o = "outdir"   -> { <<"dir">> }
    [] o = "parser"   -> { <<"bobcat">>, <<"depccg">> }
    [] o = "reader"   -> { <<"cups">>, <<"spiders">> }
    [] o = "rules"    -> { <<"list">>, <<"list", "determiner">> }
    [] o = "ansatz"   -> { <<"iqp">>, <<"mps">> }
    [] o = "aopts"    -> { <<"list", "dim_n", "1">> }
    [] o = "roots"    -> { <<"list", "NP">> }
    [] o = "tokenise" -> { <<"yes">> }
    [] o = "split"    -> { <<"yes">> }

\* command lines in which at most n of the options os are given
RECURSIVE Lines(_, _)
Lines(n, os) ==
  IF n = 0 THEN {Nothing}
  ELSE LET less == Lines(n - 1, os)
       IN  less \cup UNION { { [l EXCEPT ![o] = v] : v \in Values(o) }
                             : <<l, o>> \in { x \in less \X os : ~Given(x[1][x[2]]) } }

Bases == { Nothing,
           [Nothing EXCEPT !.format = <<"pickle">>, !.outfile = <<"out">>],
           [Nothing EXCEPT !.format = <<"image">>, !.outdir = <<"dir">>] }

\* the command lines that differ from a base in few options
Near(n, base) == { [o \in Options |-> IF Given(l[o]) THEN l[o] ELSE base[o]]
                   : l \in Lines(n, Options) }

Firsts == UNION { Near(Depth, b) : b \in Bases }
Seconds == Lines(Deeper, Options)

Init == first \in Firsts /\ second = Nothing
Next == second = Nothing /\ second' \in Seconds /\ UNCHANGED first

R1 == RunOf([given |-> first, load |-> "", store |-> "c"], NoConfs)
R2 == RunOf([given |-> second, load |-> "c", store |-> "d"], R1.confs)
R3 == RunOf([given |-> Nothing, load |-> "d", store |-> ""], R2.confs)

\* storing and loading the options reproduces the run
LawReplay ==
  /\ "d" \in DOMAIN R2.confs =>
       Plan(R3.options) = Plan(R2.options) /\ R3.verdict = R2.verdict
  /\ second = Nothing /\ "c" \in DOMAIN R1.confs =>
       Plan(R2.options) = Plan(R1.options) /\ R2.verdict = R1.verdict

\* what is given comes first, what is not given comes from the file
LawPrecedence ==
  "c" \in DOMAIN R1.confs =>
    \A o \in Options :
      R2.options[o] = (IF o = "aopts"
                       THEN IF Given(second[o]) THEN Filled(second[o])
                            ELSE R1.options[o]
                       ELSE IF Given(second[o]) THEN second[o]
                       ELSE IF Displaced(second, o) THEN <<>> ELSE R1.options[o])

\* a refused run stores nothing; nothing is stored under another name
LawRefused ==
  /\ R1.verdict \in {"refused", "usage"} => R1.confs = NoConfs /\ R2.verdict \in {"missing", "usage"}
  /\ R2.verdict \in {"refused", "usage", "missing"} => R2.confs = R1.confs
  /\ "c" \in DOMAIN R1.confs => R2.confs["c"] = R1.confs["c"]

\* the plan of a run that goes has one source, one engine and one place
LawPlan ==
  \A r \in {R1, R2} : r.verdict = "goes" =>
    LET p == Plan(r.options) IN
    /\ p.format \notin Texts => Given(p.outfile) # Given(p.outdir)
    /\ p.engine.form = "ccg" => p.engine.by = "parser" /\ ~Given(p.rules) /\ p.ansatz.name = "none"
    /\ p.ansatz.name # "none" =>
         /\ p.format \in {"pickle", "image"} /\ p.ansatz.n # "?" /\ p.ansatz.s # "?"
         /\ \A i \in 1..Len(p.ansatz.opts) : p.ansatz.opts[i][2] # "?"
    /\ Given(p.outdir) => p.format = "image"
=============================================================================
