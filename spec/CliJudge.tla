------------------------------ MODULE CliJudge ------------------------------
(***************************************************************************)
(* Trace validation of the luafmt program.  A case records one run of it:  *)
(* the directory tree, the arguments and the standard input it was given,  *)
(* what it printed on both outputs, and the tree afterwards; `runs` holds  *)
(* what the formatter itself makes of the texts at hand.  The program is a *)
(* transition system; the order in which the files of a directory come,    *)
(* and which of several configuration files of a directory is taken, are   *)
(* left open.  Every action must explain the next part of what was         *)
(* recorded; a case conforms if some behaviour explains all of it.         *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.CASES)
N == Len(Trace)

Argv(k) == Trace[k].argv
Paths(k) == Sorted(PathArgs(Argv(k)))
Deep(k) == Has(Argv(k), "r")
InPlace(k) == Has(Argv(k), "i")
Verbose(k) == Has(Argv(k), "v")
Cwd(k) == IF Trace[k].cwd = "" THEN <<>> ELSE Names(Trace[k].cwd)
\* per case, computed once
Trees == [k \in 1..N |-> TreeOf(Trace[k].tree)]
Configs == [k \in 1..N |-> SetAll(NoOptions, CliAssigns(Argv(k)), 1)]
Errors == [k \in 1..N |-> LET ls == SplitText(Trace[k].stderr, "\n") IN IF ls[Len(ls)] = "" THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls]
RunConfigs == [k \in 1..N |-> [j \in 1..Len(Trace[k].runs) |-> SetAll(NoOptions, Trace[k].runs[j].opts, 1)]]
\* the formatter runs on a text
RunsOn == [k \in 1..N |-> LET rs == Trace[k].runs
                         IN [t \in {rs[j].src : j \in 1..Len(rs)} |-> {j \in 1..Len(rs) : rs[j].src = t /\ rs[j].st # "skip"}]]
CliCfg(k) == Configs[k]
ErrLines(k) == Errors[k]

\* what the formatter makes of src under cfg
Formatted(k, src, cfg) ==
  LET rs == Trace[k].runs
      js == IF src \in DOMAIN RunsOn[k] THEN {j \in RunsOn[k][src] : RunConfigs[k][j] = cfg} ELSE {}
  IN IF js = {} THEN Assert(FALSE, <<"no reference", k, src>>) ELSE rs[CHOOSE j \in js : TRUE]

(* --- explaining the outputs --- *)
\* the positions behind reports reps, read from line e on
RECURSIVE AfterReports(_, _, _)
AfterReports(ls, e, reps) ==
  IF reps = <<>> THEN {e}
  ELSE LET r == Head(reps)
       IN IF e > Len(ls) \/ \E w \in r.kw : ~Mentions(ls[e], w) THEN {}
          ELSE UNION {AfterReports(ls, e2, Tail(reps)) : e2 \in IF r.more THEN (e + 1)..(Len(ls) + 1) ELSE {e + 1}}

\* the position behind text t read from position o of s, or 0
AfterText(s, o, t) == IF o # 0 /\ o + Len(t) - 1 <= Len(s) /\ SubSeq(s, o, o + Len(t) - 1) = t THEN o + Len(t) ELSE 0
\* behind one line that mentions w
AfterLine(s, o, w) ==
  LET e == IF o = 0 THEN 0 ELSE IndexOf(s, "\n", o) IN IF e # 0 /\ Mentions(SubSeq(s, o, e), w) THEN e + 1 ELSE 0
\* the files that the line at position o may announce
Announced(s, o, files) ==
  LET e == IndexOf(s, "\n", o)
      ends == {SubSeq(s, j, e - 1) : j \in o..e}
      named == {f \in files : f.d \in ends}
  IN IF e = 0 THEN {} ELSE IF named # {} THEN named ELSE {f \in files : Mentions(SubSeq(s, o, e), f.d)}
\* behind a listing of the options cfg
AfterListing(s, o, cfg) ==
  LET b == IF o = 0 THEN 0 ELSE IndexOf(s, "{\n", o)
      e == IF b = 0 THEN 0 ELSE IndexOf(s, "\n}\n", b + 1)
      ls == IF e <= b + 1 THEN <<>> ELSE SplitText(SubSeq(s, b + 2, e - 1), "\n")
      bare(l) == SubSeq(l, IF FirstChar(l) = "\t" THEN 2 ELSE 1, IF LastChar(l) = "," THEN Len(l) - 1 ELSE Len(l))
  IN IF b = 0 \/ e = 0 \/ IndexOf(s, "\n", o) # b + 1 THEN 0
     ELSE IF {bare(ls[j]) : j \in 1..Len(ls)} = Listing(cfg) THEN e + 3 ELSE 0

(* --- one text under one configuration: [out, reps, res], res is the text to deliver --- *)
NoText == "<nothing>"
FormatText(k, src, cfg, name) ==
  LET r == Formatted(k, src, cfg)
  IN IF r.st = "ok" THEN [reps |-> <<>>, res |-> r.out] ELSE [reps |-> <<Report({name}, TRUE)>>, res |-> NoText]

\* what can happen with file f: [cfg (<<>>: none used), reps, res]
Outcomes(k, fs, f) ==
  LET e == fs[f.p]
      err(more) == [cfg |-> <<>>, reps |-> <<Report({f.d}, more)>>, res |-> NoText]
      under(cfg, reps) == LET t == FormatText(k, e.c, cfg, f.d) IN [cfg |-> <<cfg>>, reps |-> reps \o t.reps, res |-> t.res]
      from(q) == LET g == fs[q]
                     c == ConfigOf(g.c)
                 IN IF g.t \in {"bytes", "noread"} THEN err(FALSE)
                    ELSE IF ~c.ok THEN err(TRUE)
                    ELSE under(SetAll(CliCfg(k), c.as, 1), AssignReports(c.as))
  IN IF e.t \in {"bytes", "noread"} THEN {err(FALSE)}
     ELSE IF ~HasEmptyFormat(CliCfg(k)) THEN {under(CliCfg(k), <<>>)}
     ELSE IF ConfigsFor(fs, f.p) = {} THEN {err(FALSE)}
     ELSE {from(q) : q \in ConfigsFor(fs, f.p)}

\* the files without those that cannot be told from another one of them: the same file, not written, of which nothing is reported
Unlike(k, fs, files) ==
  LET quiet(f) == ~InPlace(k) /\ \A c \in Outcomes(k, fs, f) : c.reps = <<>>
      one(p) == CHOOSE f \in files : f.p = p
  IN UNION {LET f == one(p) IN IF quiet(f) THEN {f} ELSE {g \in files : g.p = p} : p \in {f.p : f \in files}}
\* the files that can come next: when files are only rewritten, and none is another one or a configuration file, order does not matter
Eligible(k, fs, files) ==
  LET calm(f) == fs[f.p].t # "nowrite" /\ \A c \in Outcomes(k, fs, f) : c.reps = <<>>
      apart == Cardinality({f.p : f \in files}) = Cardinality(files) /\ \A f \in files : ~IsConfigName(f.p[Len(f.p)])
  IN IF ~InPlace(k) THEN Unlike(k, fs, files)
     ELSE IF apart /\ \E f \in files : calm(f) THEN {CHOOSE f \in files : calm(f)} ELSE files

(* --- the program --- *)
VARIABLE s

Init == \E k \in 1..N : s = [k |-> k, ph |-> "start", args |-> <<>>, files |-> {}, fs |-> Trees[k], o |-> 1, e |-> 1]

Out(k) == Trace[k].stdout

\* some cases only record how the run ended
Ended(k) == Trace[k].code \notin {"signal", "timeout", "101"} /\ Trace[k].stray = 0
Glance ==
  /\ s.ph = "start" /\ Trace[s.k].light /\ Ended(s.k)
  /\ s' = [s EXCEPT !.ph = "accepted"]
  /\ PrintT(<<"ACCEPT", s.k>>)

\* arguments are read, options reported
Start ==
  /\ s.ph = "start" /\ ~Trace[s.k].light
  /\ LET o1 == IF Verbose(s.k) THEN AfterLine(Out(s.k), AfterLine(Out(s.k), 1, ""), "") ELSE 1
     IN /\ o1 # 0
        /\ \E e2 \in AfterReports(ErrLines(s.k), 1, OptionReports(Argv(s.k))) :
             s' = [s EXCEPT !.ph = IF Paths(s.k) = <<>> THEN "stdin" ELSE "args", !.args = Paths(s.k), !.o = o1, !.e = e2]

Stdin ==
  /\ s.ph = "stdin"
  /\ LET cfg == CliCfg(s.k)
         t == IF Trace[s.k].inbad THEN [reps |-> <<Report({}, FALSE)>>, res |-> NoText] ELSE FormatText(s.k, Trace[s.k].in, cfg, "")
         o1 == IF Verbose(s.k) /\ ~Trace[s.k].inbad THEN AfterListing(Out(s.k), s.o, cfg) ELSE s.o
         o2 == IF t.res = NoText THEN o1 ELSE AfterText(Out(s.k), o1, t.res)
     IN /\ o2 # 0
        /\ \E e2 \in AfterReports(ErrLines(s.k), s.e, t.reps) : s' = [s EXCEPT !.ph = "end", !.o = o2, !.e = e2]

\* the next path argument
NextPath ==
  /\ s.ph = "args" /\ s.files = {} /\ s.args # <<>>
  /\ LET a == Head(s.args)
         r == FilesOf(s.fs, Cwd(s.k), a, Deep(s.k))
     IN \E e2 \in AfterReports(ErrLines(s.k), s.e, IF r.found THEN <<>> ELSE <<Report({a}, FALSE)>>) :
          s' = [s EXCEPT !.args = Tail(@), !.files = r.files, !.e = e2]

\* one of its files
ProcessFile ==
  /\ s.ph = "args"
  /\ \E f \in IF Verbose(s.k) THEN Announced(Out(s.k), s.o, s.files) ELSE Eligible(s.k, s.fs, s.files) : \E c \in Outcomes(s.k, s.fs, f) :
       LET o1 == IF Verbose(s.k) THEN AfterLine(Out(s.k), s.o, "") ELSE s.o
           o2 == IF Verbose(s.k) /\ c.cfg # <<>> THEN AfterListing(Out(s.k), o1, c.cfg[1]) ELSE o1
           writes == c.res # NoText /\ InPlace(s.k)
           denied == writes /\ s.fs[f.p].t = "nowrite"
           o3 == IF c.res # NoText /\ ~InPlace(s.k) THEN AfterText(Out(s.k), o2, c.res) ELSE o2
       IN /\ o3 # 0
          /\ \E e2 \in AfterReports(ErrLines(s.k), s.e, c.reps \o (IF denied THEN <<Report({f.d}, FALSE)>> ELSE <<>>)) :
               s' = [s EXCEPT !.files = @ \ {f}, !.o = o3, !.e = e2,
                              !.fs = IF writes /\ ~denied THEN [@ EXCEPT ![f.p].c = c.res] ELSE @]

\* nothing is left: everything must be explained, and the tree be as it should
Kind(t) == IF t \in {"noread", "nowrite"} THEN "file" ELSE IF t \in DirKinds THEN "dir" ELSE t
Entries(fs) == {<<p, Kind(fs[p].t), IF fs[p].t = "bytes" THEN "" ELSE fs[p].c>> : p \in DOMAIN fs \ {<<>>}}
After(k) == LET a == Trace[k].after IN {<<Names(a[j].p), a[j].t, a[j].c>> : j \in 1..Len(a)}
Explained ==
  /\ s.o = Len(Out(s.k)) + 1 /\ s.e = Len(ErrLines(s.k)) + 1
  /\ Ended(s.k)
  /\ Entries(s.fs) = After(s.k)

End ==
  /\ \/ s.ph = "end" \/ (s.ph = "args" /\ s.args = <<>> /\ s.files = {})
  /\ Explained
  /\ s' = [s EXCEPT !.ph = "accepted"]
  /\ PrintT(<<"ACCEPT", s.k>>)

Next == Glance \/ Start \/ Stdin \/ NextPath \/ ProcessFile \/ End
Spec == Init /\ [][Next]_s
=============================================================================
