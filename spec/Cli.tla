-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: options are resolved (given on the command line, then  *)
(* stored in the file being loaded, then the defaults), contradictions are  *)
(* refused, the options are stored when that is asked for, and the run      *)
(* then does what the resolved options say: a *plan* of library calls and   *)
(* the places its results are written to.                                   *)
(*                                                                          *)
(* Every option is a sequence of strings: <<>> when it is not given,        *)
(* otherwise its values; for the options that take a list the first entry   *)
(* is "list" (an empty list is something else than no list), and the        *)
(* entries of -n and -u are key, value, key, value.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Options == {"sentence", "infile", "mode", "format", "image", "uopts",
            "outfile", "outdir", "parser", "tokenise", "split", "reader",
            "roots", "rules", "ansatz", "aopts"}

Nothing == [o \in Options |-> <<>>]

Given(v) == v # <<>>

(*------------------------------ -n and -u -------------------------------*)
AnsatzKeys == << <<"dim_n", "2">>, <<"dim_s", "2">>, <<"n_layers", "2">>,
                 <<"n_single_qubit_params", "3">>, <<"bond_dim", "3">>,
                 <<"max_order", "3">> >>

\* the value of key k in a list of keys and values, d when it is not there
Lookup(v, k, d) ==
  LET at == { i \in 1..Len(v) : i % 2 = 0 /\ v[i] = k }
  IN  IF at = {} THEN d ELSE v[(CHOOSE i \in at : \A j \in at : j <= i) + 1]

RECURSIVE Flatten(_, _)
Flatten(v, i) ==
  IF i > Len(AnsatzKeys) THEN <<>>
  ELSE <<AnsatzKeys[i][1], Lookup(v, AnsatzKeys[i][1], AnsatzKeys[i][2])>>
       \o Flatten(v, i + 1)

\* all the options of the ansatz: those not given have their default
Filled(v) == <<"list">> \o Flatten(v, 1)

(*------------------------------ resolution ------------------------------*)
Default(o) ==
  CASE o = "mode"   -> <<"string-diagram">>
    [] o = "format" -> <<"text-unicode">>
    [] o = "image"  -> <<"png">>
    [] o = "aopts"  -> Filled(<<>>)
    [] OTHER        -> <<>>

\* the results go to one place: the one given now displaces the stored one
Displaced(explicit, o) ==
  \/ o = "outfile" /\ Given(explicit["outdir"])
  \/ o = "outdir" /\ Given(explicit["outfile"])

Resolve(explicit, stored) ==
  LET v == [o \in Options |->
             IF Given(explicit[o]) THEN explicit[o]
             ELSE IF Given(stored[o]) /\ ~Displaced(explicit, o) THEN stored[o]
             ELSE Default(o)]
  IN  [v EXCEPT !.aopts = Filled(@)]

(*------------------------------- refusals -------------------------------*)
Is(r, o, x) == Given(r[o]) /\ r[o][1] = x
In(r, o, s) == Given(r[o]) /\ r[o][1] \in s
Texts == {"text-unicode", "text-ascii"}

\* what the parser of the command line itself refuses
Usage(explicit) == Given(explicit["outfile"]) /\ Given(explicit["outdir"])

Contradictions(r) ==
  { c \in { "two-inputs", "no-place", "parser-and-reader",
            "options-of-images", "directory", "ccg-steps", "ccg-image",
            "ccg-parser", "text-steps", "text-reader" } :
    CASE c = "two-inputs" -> Given(r["sentence"]) /\ Given(r["infile"])
      [] c = "no-place" ->
           /\ ~Given(r["outfile"]) /\ ~Given(r["outdir"])
           /\ ~In(r, "format", Texts)
      [] c = "parser-and-reader" -> Given(r["parser"]) /\ Given(r["reader"])
      [] c = "options-of-images" ->
           Len(r["uopts"]) > 1 /\ ~Is(r, "format", "image")
      [] c = "directory" -> Given(r["outdir"]) /\ ~Is(r, "format", "image")
      [] c = "ccg-steps" ->
           /\ Is(r, "mode", "ccg")
           /\ \/ Given(r["ansatz"]) \/ Given(r["reader"]) \/ Given(r["rules"])
      [] c = "ccg-image" -> Is(r, "mode", "ccg") /\ Is(r, "format", "image")
      [] c = "ccg-parser" ->
           Is(r, "mode", "ccg") /\ Given(r["parser"]) /\ ~Is(r, "parser", "bobcat")
      [] c = "text-steps" ->
           /\ In(r, "format", Texts \cup {"json"}) /\ ~Is(r, "mode", "ccg")
           /\ (Given(r["ansatz"]) \/ Given(r["rules"]))
      [] c = "text-reader" ->
           /\ In(r, "format", Texts \cup {"json"}) /\ ~Is(r, "mode", "ccg")
           /\ In(r, "reader", {"spiders", "stairs", "tree"}) }

(*-------------------------------- the plan ------------------------------*)
Source(r) == IF Given(r["sentence"]) THEN "sentence"
             ELSE IF Given(r["infile"]) THEN "file" ELSE "stdin"

\* the diagrams (or derivations) the run is about
Engine(r) ==
  IF Given(r["reader"])
  THEN [by |-> "reader", name |-> r["reader"][1], roots |-> <<>>, form |-> "diagram"]
  ELSE LET name == IF Given(r["parser"]) THEN r["parser"][1] ELSE "bobcat"
       IN  [by |-> "parser", name |-> name,
            \* the categories of the root are for the parser that knows them
            roots |-> IF name = "bobcat" THEN r["roots"] ELSE <<>>,
            form |-> CASE Is(r, "mode", "ccg") -> "ccg"
                       [] Is(r, "mode", "pregroups") -> "pregroups"
                       [] OTHER -> "diagram"]

AnsatzOptions ==
  [iqp |-> <<"n_layers", "n_single_qubit_params">>, tensor |-> <<>>,
   spider |-> <<"max_order">>, mps |-> <<"bond_dim", "max_order">>]

Ansatz(r) ==
  IF ~Given(r["ansatz"]) THEN [name |-> "none", n |-> "", s |-> "", opts |-> <<>>]
  ELSE LET a == r["ansatz"][1] IN
       [name |-> a,
        n |-> Lookup(r["aopts"], "dim_n", "?"),
        s |-> Lookup(r["aopts"], "dim_s", "?"),
        opts |-> [i \in 1..Len(AnsatzOptions[a]) |->
                    <<AnsatzOptions[a][i], Lookup(r["aopts"], AnsatzOptions[a][i], "?")>>]]

Figure(r) == [width |-> Lookup(r["uopts"], "fig_width", ""),
              height |-> Lookup(r["uopts"], "fig_height", ""),
              font |-> Lookup(r["uopts"], "fontsize", "")]

Plan(r) ==
  [source |-> Source(r), text |-> r["sentence"], file |-> r["infile"],
   split |-> Given(r["split"]), tokenise |-> Given(r["tokenise"]),
   engine |-> Engine(r), rules |-> r["rules"], ansatz |-> Ansatz(r),
   format |-> r["format"][1], image |-> r["image"][1],
   outfile |-> r["outfile"], outdir |-> r["outdir"], figure |-> Figure(r)]

(*------------------------------- a run ----------------------------------*)
\* confs: the options stored in each file, as a function of the stored names
NoConfs == [x \in {} |-> Nothing]

RunOf(run, confs) ==
  LET missing == run.load # "" /\ run.load \notin DOMAIN confs
      stored == IF run.load # "" /\ ~missing THEN confs[run.load] ELSE Nothing
      r == Resolve(run.given, stored)
      verdict == IF Usage(run.given) THEN "usage"
                 ELSE IF missing THEN "missing"
                 ELSE IF Contradictions(r) # {} THEN "refused"
                 ELSE IF Is(r, "format", "json") /\ ~Is(r, "mode", "ccg")
                 THEN "unsupported"
                 ELSE "goes"
  IN  [verdict |-> verdict, options |-> r,
       why |-> IF verdict = "refused" THEN Contradictions(r) ELSE {},
       confs |-> IF verdict \in {"goes", "unsupported"} /\ run.store # ""
                 THEN [x \in DOMAIN confs \cup {run.store} |->
                         IF x = run.store THEN r ELSE confs[x]]
                 ELSE confs]

RECURSIVE History(_, _, _)
History(runs, k, confs) ==
  IF k > Len(runs) THEN <<>>
  ELSE LET res == RunOf(runs[k], confs)
       IN  <<res>> \o History(runs, k + 1, res.confs)

(*------------------------- places of the results ------------------------*)
\* extensions that name a type of image are given with the file: stem and ext
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE 3
Numbered(i, n) ==
  (IF Digits(n) - Digits(i) = 2 THEN "00"
   ELSE IF Digits(n) - Digits(i) = 1 THEN "0" ELSE "") \o ToString(i)

\* the sets of files a run may leave behind; n diagrams, the given file
\* split in stem and known extension ("" when it is no type of image)
Places(plan, n, stem, ext) ==
  IF plan.format = "image"
  THEN IF Given(plan.outdir)
       THEN { { plan.outdir[1] \o "/diagram_" \o Numbered(i, n) \o "." \o plan.image
                : i \in 1..n } }
       ELSE IF n = 0 THEN { {} }
       ELSE IF ext = "" THEN { { stem \o "." \o plan.image } }
       \* a type in the name and another one asked for: either
       ELSE { { stem \o "." \o ext } }
            \cup (IF plan.image = "png" THEN {} ELSE { { stem \o "." \o plan.image } })
  ELSE IF Given(plan.outfile) THEN { { plan.outfile[1] } }
  ELSE { {} }

\* more than one image does not go in one file
TooMany(plan, n) == plan.format = "image" /\ ~Given(plan.outdir) /\ n > 1
=============================================================================
