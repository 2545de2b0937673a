------------------------------ MODULE P24Trace ------------------------------
(* Recorded histories of command lines: an event is one run, with what it    *)
(* raised, the files it wrote, and whether they hold what the library calls  *)
(* of the plan give.                                                          *)
EXTENDS Cli, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, confs

Elems(q) == { q[i] : i \in 1..Len(q) }

Wrong(e, run, r) ==
  LET p == Plan(r.options)
      confd == Elems(e.confs)
      stored == IF run.store = "" THEN {} ELSE {run.store}
      files == Elems(e.files)
  IN
  CASE r.verdict = "usage" ->
         (IF e.raised # "SystemExit" THEN {"not-refused:usage"} ELSE {})
         \cup (IF files \cup confd # {} \/ e.stdout # "" THEN {"wrote-before-refusing"} ELSE {})
    [] r.verdict = "missing" ->
         (IF e.raised # "FileNotFoundError" THEN {"loaded-what-was-never-stored"} ELSE {})
         \cup (IF files \cup confd # {} \/ e.stdout # "" THEN {"wrote-before-refusing"} ELSE {})
    [] r.verdict = "refused" ->
         (IF e.raised # "ValueError" THEN {"not-refused:" \o (CHOOSE w \in r.why : TRUE)} ELSE {})
         \cup (IF files \cup confd # {} \/ e.stdout # "" THEN {"wrote-before-refusing"} ELSE {})
    [] r.verdict = "unsupported" ->
         (IF e.raised = "" THEN {"not-refused:json"} ELSE {})
         \cup (IF files # {} THEN {"wrote-before-refusing"} ELSE {})
         \cup (IF confd \ stored # {} THEN {"stored-elsewhere"} ELSE {})
    [] r.verdict = "goes" /\ (e.lib # "" \/ TooMany(p, e.n)) ->
         \* the library has no answer either
         (IF e.raised = "" THEN {"went-on"} ELSE {})
         \cup (IF e.lib = "" /\ e.raised # "ValueError" THEN {"too-many-images"} ELSE {})
         \cup (IF files # {} THEN {"wrote-before-failing"} ELSE {})
         \cup (IF confd # stored THEN {"not-stored"} ELSE {})
    [] OTHER ->
         IF e.raised # "" THEN {"failed:" \o e.raised}
         ELSE (IF confd # stored THEN {"not-stored"} ELSE {})
              \cup (IF files \notin Places(p, e.n, e.stem, e.ext) THEN {"places"} ELSE {})
              \cup (IF (e.stdout # "") # (p.format \in Texts /\ ~Given(p.outfile)) THEN {"screen"} ELSE {})
              \cup (IF e.stdout = "else" THEN {"shown"} ELSE {})
              \cup (IF ~e.same THEN {"results"} ELSE {})
              \cup (IF ~e.drawn THEN {"figure"} ELSE {})

Init == c \in 1..Len(Cases) /\ l = 1 /\ confs = NoConfs
Next == /\ l <= Len(Cases[c].runs)
        /\ LET r == RunOf(Cases[c].runs[l], confs)
           IN  /\ \A b \in Wrong(Cases[c].events[l], Cases[c].runs[l], r) :
                    PrintT("@@FAIL|" \o ToString(c) \o "|run:" \o b \o "|event " \o ToString(l))
               /\ confs' = r.confs
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF l = Len(Cases[c].runs) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, confs>>
=============================================================================
