-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The luafmt program around the formatter: arguments, paths, files and    *)
(* configuration files.  A directory tree is a sequence of entries         *)
(*   [p |-> path text, t |-> kind, c |-> content]                          *)
(* of kind "dir", "enter" (a directory that cannot be listed), "closed"    *)
(* (nor entered), "file", "bytes" (a file that is no UTF-8), "noread",     *)
(* "nowrite" (files without that permission) or "link" (c is the target).  *)
(* In names and arguments Odd.raw stands for a byte that is no UTF-8.      *)
(* A path is the sequence of its names, <<>> being the top of the tree,    *)
(* which path texts call @ROOT@.                                           *)
(***************************************************************************)
EXTENDS LuaSyntax, Options, FiniteSets

CRange(n) == [j \in 1..n |-> j]
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* position of p in s at or after i, or 0
RECURSIVE IndexOf(_, _, _)
IndexOf(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE IndexOf(s, p, i + 1)
Mentions(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* s cut at every character c
SplitText(s, c) ==
  LET cuts == <<0>> \o SelectSeq(CRange(Len(s)), LAMBDA j : SubSeq(s, j, j) = c) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[k] + 1, cuts[k + 1] - 1)]

(* --- the tree --- *)
Names(text) == SplitText(text, "/")
\* path -> [t, c]; the directories on the way to an entry exist
TreeOf(es) ==
  LET paths == {Names(es[j].p) : j \in 1..Len(es)}
      ups == UNION {{SubSeq(p, 1, k) : k \in 0..Len(p)} : p \in paths} \cup {<<>>}
      entry(p) == LET js == {j \in 1..Len(es) : Names(es[j].p) = p}
                  IN IF js = {} THEN [t |-> "dir", c |-> ""] ELSE LET j == CHOOSE k \in js : TRUE IN [t |-> es[j].t, c |-> es[j].c]
  IN [p \in ups |-> entry(p)]

DirKinds == {"dir", "enter", "closed"}
FileKinds == {"file", "bytes", "noread", "nowrite"}
Nowhere == <<"?">>

RECURSIVE Walk(_, _, _, _)
\* the path that the names lead to from cur, links followed, or Nowhere
Walk(fs, cur, names, fuel) ==
  IF names = <<>> THEN cur
  ELSE IF fs[cur].t \notin DirKinds \/ fuel = 0 THEN Nowhere
  ELSE IF fs[cur].t = "closed" /\ \E j \in 1..Len(names) : names[j] # "" THEN Nowhere
  ELSE LET n == Head(names)
           q == Append(cur, n)
       IN CASE n \in {"", "."} -> Walk(fs, cur, Tail(names), fuel)
            [] n = ".." -> IF cur = <<>> THEN Nowhere ELSE Walk(fs, SubSeq(cur, 1, Len(cur) - 1), Tail(names), fuel)
            [] q \notin DOMAIN fs -> Nowhere
            [] fs[q].t = "link" ->
                 IF HasPrefix(fs[q].c, "@ROOT@") THEN Walk(fs, <<>>, Tail(Names(fs[q].c)) \o Tail(names), fuel - 1)
                 ELSE Walk(fs, cur, Names(fs[q].c) \o Tail(names), fuel - 1)
            [] OTHER -> Walk(fs, q, Tail(names), fuel)

Resolve(fs, cwd, text) ==
  IF text = "" THEN Nowhere
  ELSE IF HasPrefix(text, "@ROOT@") THEN Walk(fs, <<>>, Tail(Names(text)), 9)
  ELSE Walk(fs, cwd, Names(text), 9)

Children(fs, p) == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
Join(text, n) == IF LastChar(text) = "/" THEN text \o n ELSE text \o "/" \o n

\* file names
Extension(n) ==
  LET cs == Chars(n)
      ds == {j \in 2..Len(n) : cs[j] = "."}
  IN IF ds = {} THEN "" ELSE LET j == CHOOSE k \in ds : \A l \in ds : l <= k IN SubSeq(n, j + 1, Len(n))
IsConfigName(n) == HasPrefix(n, ".luafmt") /\ Extension(n) = "lua"
IsSourceName(n) == ~HasPrefix(n, ".luafmt") /\ Extension(n) = "lua"

Unlisted == [d |-> "", p |-> Nowhere]
RECURSIVE FilesIn(_, _, _, _, _)
\* the files a directory stands for: [d |-> path text, p |-> path]; Unlisted is among them if one of its directories cannot
\* be listed.  above: the directories passed on the way; links back to one of them are not followed
FilesIn(fs, p, text, deep, above) ==
  IF fs[p].t # "dir" THEN {Unlisted}
  ELSE UNION {LET n == q[Len(q)]
                  r == Walk(fs, p, <<n>>, 9)
              IN IF r = Nowhere THEN {}
                 ELSE IF fs[r].t \in DirKinds THEN IF deep /\ r \notin above \cup {p} THEN FilesIn(fs, r, Join(text, n), deep, above \cup {p}) ELSE {}
                 ELSE IF IsSourceName(n) THEN {[d |-> Join(text, n), p |-> r]} ELSE {}
              : q \in Children(fs, p)}

\* the files an argument stands for; found = FALSE: there is no such path
FilesOf(fs, cwd, text, deep) ==
  LET r == Resolve(fs, cwd, text)
      in == FilesIn(fs, r, text, deep, {})
  IN IF r = Nowhere THEN [found |-> FALSE, files |-> {}]
     ELSE IF fs[r].t \in FileKinds THEN [found |-> TRUE, files |-> {[d |-> text, p |-> r]}]
     ELSE IF Unlisted \in in THEN [found |-> FALSE, files |-> {}]
     ELSE [found |-> TRUE, files |-> in]

RECURSIVE ConfigsFor(_, _)
\* the configuration files of the nearest directory that has some, for the file with path p
ConfigsFor(fs, p) ==
  IF p = <<>> THEN {}
  ELSE LET d == SubSeq(p, 1, Len(p) - 1)
           cand == {r \in {Walk(fs, d, <<q[Len(q)]>>, 9) : q \in {c \in Children(fs, d) : IsConfigName(c[Len(c)])}} :
                      r # Nowhere /\ fs[r].t \in FileKinds}
       IN IF fs[d].t = "dir" /\ cand # {} THEN cand ELSE ConfigsFor(fs, d)

(* --- configuration files --- *)
RECURSIVE AssignsOf(_, _)
\* the assignments `name = value` of a block, in order
AssignsOf(T, n) ==
  CASE n.t = "slist" -> FoldLeft(LAMBDA acc, m : acc \o AssignsOf(T, m), <<>>, n.c)
    [] n.t = "block" -> AssignsOf(T, n.c[1])
    [] n.t = "assign" ->
         LET vs == n.c[1]
             es == n.c[2]
         IN IF vs.t # "varlist" THEN <<>>
            ELSE IF vs.its = <<>> \/ es.its = <<>> THEN <<>>
            ELSE IF vs.its[1].n.t # "tok" \/ es.its[1].n.t # "tok" THEN <<>>
            ELSE LET v == T[es.its[1].n.a]
                     name == T[vs.its[1].n.a].s
                 IN CASE v.k \in {"str", "chr"} -> << <<name, SubSeq(v.s, 2, Len(v.s) - 1)>> >>
                      [] v.k \in {"num", "true", "false"} -> << <<name, v.s>> >>
                      [] OTHER -> <<>>
    [] OTHER -> <<>>

\* [ok, as]: the assignments a configuration file makes
ConfigOf(text) ==
  LET L == Lex(text)
      P == Parse(L)
  IN IF ~P.ok THEN [ok |-> FALSE, as |-> <<>>] ELSE [ok |-> TRUE, as |-> AssignsOf(L.T, P.n)]

(* --- arguments --- *)
IsOption(a) == HasPrefix(a, "-")
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}

\* [k |-> "set", n, v], [k |-> "i" | "r" | "v"] or [k |-> "?"]
OptionOf(a) ==
  LET cs == Chars(a)
      e == SkipIn(cs, 3, AlNum)
      w == SubSeq(a, IF HasPrefix(a, "--") THEN 3 ELSE 2, Len(a))
  IN IF Mentions(a, Odd.raw) THEN [k |-> "?"]
     ELSE IF HasPrefix(a, "--") /\ e > 3 /\ At(cs, e) = "="
     THEN [k |-> "set", n |-> SubSeq(a, 3, e - 1), v |-> SubSeq(a, e + 1, Len(a))]
     ELSE CASE w \in {"i", "inplace"} -> [k |-> "i"]
            [] w \in {"r", "recursive"} -> [k |-> "r"]
            [] w \in {"v", "verbose"} -> [k |-> "v"]
            [] OTHER -> [k |-> "?"]

\* options that are no UTF-8 are refused before the others are looked at
OptionArgs(argv) == SelectSeq(argv, LAMBDA a : IsOption(a) /\ Mentions(a, Odd.raw)) \o SelectSeq(argv, LAMBDA a : IsOption(a) /\ ~Mentions(a, Odd.raw))
PathArgs(argv) == SelectSeq(argv, LAMBDA a : ~IsOption(a))
Has(argv, k) == \E j \in 1..Len(argv) : IsOption(argv[j]) /\ OptionOf(argv[j]).k = k
\* the assignments on the command line, in order
CliAssigns(argv) ==
  FoldLeft(LAMBDA acc, a : LET o == OptionOf(a) IN IF o.k = "set" THEN Append(acc, <<o.n, o.v>>) ELSE acc, <<>>, OptionArgs(argv))

\* order of path texts; `@` stands for the `/` of an absolute path
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~é→" \o Odd.raw
CodeOf == [c \in {SubSeq(Ascii, j, j) : j \in 1..Len(Ascii)} |-> CHOOSE j \in 1..Len(Ascii) : SubSeq(Ascii, j, j) = c]
Code(s, j) == IF j = 1 /\ SubSeq(s, 1, 1) = "@" THEN CodeOf["/"] ELSE CodeOf[SubSeq(s, j, j)]
RECURSIVE TextLE(_, _, _)
TextLE(s, t, j) == IF j > Len(s) THEN TRUE ELSE IF j > Len(t) THEN FALSE
                   ELSE IF Code(s, j) # Code(t, j) THEN Code(s, j) < Code(t, j) ELSE TextLE(s, t, j + 1)
Sorted(texts) == SortSeq(texts, LAMBDA s, t : s # t /\ TextLE(s, t, 1))

(* --- what is reported --- *)
\* a report mentions each of kw; more: further lines may belong to it
Report(kw, more) == [kw |-> kw, more |-> more]
\* a report of words that may have line breaks
Telling(words) == Report({SplitText(w, "\n")[1] : w \in words}, \E w \in words : Mentions(w, "\n"))
OptionReports(argv) ==
  FoldLeft(LAMBDA acc, a :
    LET o == OptionOf(a)
    IN CASE o.k = "?" -> Append(acc, Telling({a}))
         [] o.k = "set" /\ o.n \notin OptionNames -> Append(acc, Telling({o.n}))
         [] o.k = "set" /\ Normal(o.n, o.v) = None -> Append(acc, Telling({o.n, o.v}))
         [] OTHER -> acc, <<>>, OptionArgs(argv))
AssignReports(as) == LET r == Rejected(as, 1, <<>>) IN [j \in 1..Len(r) |-> Telling({r[j][k] : k \in 2..Len(r[j])})]

(* --- the verbose listing of options --- *)
Quoted1(s) ==
  "\"" \o FoldLeft(LAMBDA acc, c : acc \o (CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\t" -> "\\t" [] c = "\n" -> "\\n"
                                           [] c = "\r" -> "\\r" [] OTHER -> c), "", Chars(s)) \o "\""
Shown(name, v) ==
  CASE name \in TextOptions -> Quoted1(v)
    [] name = "line_range" -> LET r == RangeOf(v) IN "(" \o r[1] \o ", " \o r[2] \o ")"
    [] OTHER -> v
Listing(cfg) == {name \o ": " \o Shown(name, cfg[name]) : name \in {n \in OptionNames : cfg[n] # None}}
=============================================================================
