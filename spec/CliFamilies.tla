---------------------------- MODULE CliFamilies -----------------------------
(***************************************************************************)
(* Bounded instances of the generator CliGen: which directory trees,       *)
(* configuration files, arguments and standard inputs are explored for     *)
(* which property.  A family                                               *)
(*   [trees, pool, nadd, tk: base trees, entries to add to them, how many, *)
(*      keep one of tk                                                     *)
(*    at, heads, stmts, seps, tails, nst, sk: the configuration file `at`  *)
(*      ("": none) is a head, up to nst statements with separators, and a  *)
(*      tail; keep one of sk                                               *)
(*    pre, args, nargs, min, post, ak: the arguments are one of pre, min   *)
(*      to nargs of args and one of post; keep one of ak                   *)
(*    fan: how many statements or arguments to try behind the first one    *)
(*      (pseudo-randomly chosen; 0: all)                                   *)
(*    ins: standard inputs; cwds: working directories;                     *)
(*    light: only how the run ends is judged].                             *)
(***************************************************************************)
EXTENDS Cli, Shapes

Dir(p) == [p |-> p, t |-> "dir", c |-> ""]
Enter(p) == [p |-> p, t |-> "enter", c |-> ""]
Closed(p) == [p |-> p, t |-> "closed", c |-> ""]
File(p, c) == [p |-> p, t |-> "file", c |-> c]
Link(p, c) == [p |-> p, t |-> "link", c |-> c]
Bytes(p) == [p |-> p, t |-> "bytes", c |-> ""]
NoRead(p, c) == [p |-> p, t |-> "noread", c |-> c]
NoWrite(p, c) == [p |-> p, t |-> "nowrite", c |-> c]

X == "x={1;2}\n"
Y == "y={3;4;5}\n"
Z == "z={a;b=2}\n\n"
Sep(c) == "field_separator = \"" \o c \o "\"\n"

Text0 == [in |-> "", bad |-> FALSE]
TextIn(c) == [in |-> c, bad |-> FALSE]
BadIn == [in |-> "", bad |-> TRUE]

Base == [trees |-> {<<>>}, pool |-> <<>>, nadd |-> 0, tk |-> 1,
         at |-> "", heads |-> {""}, stmts |-> {}, seps |-> {"\n"}, tails |-> {""}, nst |-> 0, sk |-> 1,
         pre |-> {<<>>}, args |-> {}, nargs |-> 0, min |-> 0, post |-> {<<>>}, ak |-> 1,
         fan |-> 0, ins |-> {Text0}, cwds |-> {""}, light |-> FALSE]

(* --- C17: assignments --- *)
BoolTry == {"true", "false", "True", "1", "", " true", "no", "true\n", "true ", "TRUE", "t", "0", "falsee", "nil"}
NumTry == {"0", "1", "3", "007", "+5", "18446744073709551615", "18446744073709551616", "-1", "1.0", "0x10", "1e3", "", " 1", "x", "true", "80 ", "1\n", "1_000", "٣", "1,5", "--1", "+", "", "00", "1 2", "1\n2"}
TextTry == {"", ",", " ; ", "a\"b", "a'b", "\\t", "true", "12", "é→", "a=b", "--", "\n", ";\r\n"}
RangeTry == {"1:2", "0:0", "03:04", "5:1", "1:", "1", ":", "1:2:3", "-1:2", "+1:2", "18446744073709551616:1", "1:18446744073709551615", " 1:2", "true", "1:2 ", "1 :2", "1-2", "a:b", "+1:+2", "::", "1:2:", ":1:2", "0x1:2", "٣:4", "1:2\n"}
Try(n) == CASE n \in BoolOptions -> BoolTry [] n \in NumberOptions -> NumTry [] n = "line_range" -> RangeTry [] OTHER -> TextTry
NoNames == {"bogus", "Max_width", "Field_Separator", "max_width_", "max", "MAX_WIDTH", "fmt", "newline_format", "i", "_", "0", "hint_table_construtor", "field_separators"}
Assignments == UNION {{<<n, v>> : v \in Try(n)} : n \in OptionNames} \cup UNION {{<<n, v>> : v \in {"1", "true", ","}} : n \in NoNames}
AsArg(a) == "--" \o a[1] \o "=" \o a[2]
Quotable(v, q) == \A j \in 1..Len(v) : SubSeq(v, j, j) \notin {q, "\n"}
Bare(v) == v \in {"true", "false"} \/ (IsDigits(v)) \/ v \in {"1.0", "0x10", "1e3"}
AsStatements(a) == {a[1] \o " = " \o a[2] : w \in {v \in {a[2]} : Bare(v)}}
                   \cup {a[1] \o "=" \o q \o a[2] \o q : q \in {p \in {"\"", "'"} : Quotable(a[2], p)}}
Loads(a) == a[1] \notin {"0"}      \* `0` is no name in Lua

(* --- C18: configuration files --- *)
ConfigStatements == {
  "field_separator, x = \"#\"", "x, field_separator = 1, \"#\"", "field_separator = \"#\", 2", "field_separator, max_width = \"#\", 5", "max_width, field_separator = 5", "x, field_separator = \"#\"",
  "field_separator, t.x = \"@\", 1", "t.x, field_separator = \"@\", 1", "field_separator = f(), \"#\"", "field_separator = ..., \"#\"", "field_separator, field_separator = \"@\", \"#\"", "continue = 1 field_separator = ';'",
  "field_separator = [[#]]", "field_separator = [=[#]=]", "max_width = '1\n2'", "bogus = '\n'",
  "field_separator = \",\"", "field_separator = ';'", "field_separator=\"#\"", "indentation_string = '\t'", "max_width = 80", "max_width = -1",
  "max_width = 1 + 1", "max_width = \"30\"", "newline_format_if = 0x10", "newline_format_table_field = 1", "newline_format_table_constructor = 1",
  "remove_comments = true", "remove_comments = false", "write_trailing_field_separator = true", "write_trailing_field_separator = \"true\"",
  "write_trailing_field_separator = false", "remove_comments = nil", "bogus = 1", "bogus = f()", "field_separator = f(\"#\")", "field_separator = (\"#\")",
  "local field_separator = \"#\"", "t.field_separator = \"#\"", "t[field_separator] = \"#\"", "do field_separator = \"#\" end",
  "if true then field_separator = \"#\" end", "while false do field_separator = \"#\" end", "repeat field_separator = \"#\" until true",
  "for i = 1, 2 do field_separator = \"#\" end", "function field_separator() field_separator = \"#\" end", "field_separator()", "field_separator\"#\"",
  "field_separator = field_separator", "field_separator = {\"#\"}", "field_separator = function() field_separator = \"#\" end",
  "::field_separator::", "goto field_separator", ";", "--field_separator = \"#\"\n", "--[[ field_separator = \"#\" ]]", "line_range = \"1:1\"", "line_range = 1",
  "hint_table_constructor = ' '", "hint_table_constructor = \"\\t\"", "field_separator = \"#\" .. \"\"", "field_separator = not true",
  "convert_charstring_to_normalstring = true", "_ENV = {}", "(f)()", "field_separator = ',\n'", "hint_table_constructor = '\n '", "field_separator =\n--c\n\",\"", "force_single_line_table = true", "replace_zero_spaces_with_hint = true"}
BrokenConfigs == {"field_separator = \n", "= \",\"\n", "field_separator = \",\"\nend\n", "field_separator = \"#\n", "--[[ field_separator = \",\"", "field_separator = \",\" return 1 x = 2",
                  "{ field_separator = \",\" }\n", "field_separator = \",\"\n" \o Odd.nul, Odd.bom \o "field_separator = \",\"\n", "field_separator: \",\"\n", "é = 1\n", "local 1 = 2", "field_separator = \",\"\n@\n"}

(* --- C19: placement --- *)
Deepen == <<Dir("d"), File("d/b.lua", Y), File("d/e/c.lua", Z), File("a.lua", X)>>
Placements == <<
  File(".luafmt.lua", Sep(",")), File("d/.luafmt.lua", Sep("#")), File("d/e/.luafmt.lua", Sep("@")), File("d/.luafmt_b.lua", Sep("|")),
  File("d/.luafmt", Sep("!")), File("d/luafmt.lua", Sep("!")), File("d/.luafmt.txt", Sep("!")), File("d/x.luafmt.lua", Sep("!")), File("d/.luafmtlua", Sep("!")),
  Dir("d/e/.luafmt.lua"), Link("d/e/.luafmt.lua", "../../cfg"), Link("d/.luafmt.lua", "nowhere.lua"), File("cfg", Sep("$")), File("d/e/.luafmt.lua", ""),
  File("d/e/.luafmt.lua", "field_separator = "), Bytes("d/.luafmt.lua"), NoRead("d/.luafmt.lua", Sep("!")),
  Link("l.lua", "d/e/c.lua"), Link("ld", "d/e"), Link("d/up", "@ROOT@/d/e"), Link("d/e/la.lua", "@ROOT@/a.lua"), Dir("f"), File("f/g/h.lua", X), Link("f/g/k.lua", "../../d/b.lua"),
  Enter("d"), Enter("d/e"), Closed("d/e"), File(".git/i.lua", X), File("d/.luafmt" \o Odd.raw \o ".lua", Sep("!")), File("d/e/" \o Odd.raw \o ".lua", X), Link("f/back", "../d"), Link("d/e/top", "@ROOT@")>>

(* --- C20: collection --- *)
\* texts of their own
C(n) == "x" \o ToString(n) \o "={1;2}\n"
Sources == <<
  File("b.lua", C(1)), File("c.txt", C(2)), File("noext", C(3)), File("b.lua.bak", C(4)), File("B.LUA", C(5)), File("x.luac", C(6)), File(".hidden.lua", C(7)), File("a.b.lua", C(8)),
  File(".luafmt.lua", Sep("#")), File(".luafmt-x.lua", C(9)), File("d/.luafmt.lua", C(10)), Dir("d"), File("d/a.lua", C(11)), File("d/b.txt", C(12)), File("d/e/z.lua", C(13)),
  Dir("d.lua"), File("d.lua/q.lua", C(14)), Link("l.lua", "d/a.lua"), Link("ln.txt", "a.lua"), Link("lm.lua", "c.txt"), Link("ld", "d"), Link("gone.lua", "nowhere"), File("d/e/y.lua", C(15)),
  File("-x.lua", C(16)), File("e f.lua", C(17)), File("é.lua", C(18)), File("d/e/f/g.lua", C(19)), File("d/luafmt.lua", C(20)), File("xlua", C(21)), File("d/notlua", C(22)), File(".lua", C(23)),
  File("d/lua", C(24)), File("x.lua.", C(25)), File("x.lua ", C(26)),
  Link("me", "."), Link("d/up", ".."), Link("d/e/d", "@ROOT@/d"), Enter("d"), Closed("d/e"), Enter("d/e"), Closed("q"), File("b" \o Odd.raw \o ".lua", C(27)), File(".luafmt" \o Odd.raw \o ".lua", C(28)),
  File("d/" \o Odd.raw \o "/w.lua", C(29)), File(".h/a.lua", C(31)), File("d/.git/v.lua", C(32)), File("..lua/...lua", C(33)), File("d/node_modules/m.lua", C(34)), File("n.l" \o Odd.raw \o "ua", C(30))>>
OpenSources == SelectSeq(Sources, LAMBDA e : e.t \notin {"enter", "closed"})
SourceArgs == {".", "a.lua", "d", "d/", "./a.lua", "@ROOT@", "@ROOT@/d", "missing", "missing.lua", "d/missing.lua", "c.txt", "b.lua", "ld", "l.lua", "d/../b.lua", "d.lua", "d/e", "gone.lua", "a.lua/",
               ".luafmt.lua", "./-x.lua", "e f.lua", "é.lua", "B.LUA", "noext", "ln.txt", "d//a.lua", "./d/./e/z.lua", "", "me", "d/up", "d/up/d", Odd.raw, "b" \o Odd.raw \o ".lua", "d/" \o Odd.raw, "q", "d/e/d/e"}

(* --- C21: contents of all kinds --- *)
Contents == <<
  File("b.lua", "x = = 1\n"), File("b.lua", "f({1;2},\n  'a')   -- c\n"), File("b.lua", "#!/usr/bin/lua\nx={1;2}"), File("b.lua", ""), File("b.lua", "\n\n\n"),
  File("b.lua", "x={1;2}\r\ny={1;2}\r\n"), File("b.lua", "x={'é';\"→\"} --é→\n--[[é]]y=1"), Bytes("b.lua"), NoRead("b.lua", X), NoWrite("b.lua", X), NoWrite("b.lua", "x=1\n"), NoWrite("b.lua", "x = = 1\n"),
  File("b.lua", "x = [[\n a;b\n]]"), File("c.lua", "local function f(a)\nif a then return {1;2;{3;4}} end\nend"), File("c.lua", "return"), File("c.lua", "end\n"), Bytes("c.lua"),
  File("c.lua", "x={                                   1                    ;                     2              }   "), Link("c.lua", "d/t"), File("d/t", Y), Link("e.lua", "a.lua"),
  File("d/k.lua", "k={1;2"), File("d/m.lua", "m={1;2}"), File("f.lua", "--[[ not closed"), File("f.lua", "x = 'a\\'b'\n"), File("a.lua~", X), File("a.lua.orig", X),
  File("b.lua", X \o Odd.nul), File("b.lua", X \o Odd.sub), File("b.lua", Odd.bom \o X), File("b.lua", X \o Odd.nbsp), File("b.lua", "x={1;'" \o Odd.bom \o "'} --" \o Odd.nbsp),
  File("b.lua", "x={1;2}\n\r"), File("b.lua", " x={1;2}\t"),
  Closed("d"), Enter("d"), Link("back", "."), Link("d/back", ".."), File("b" \o Odd.raw \o ".lua", Y), File(Odd.raw \o "/c.lua", "x = = 1\n")>>
Settings == <<File(".luafmt.lua", Sep(",")), File(".luafmt.lua", "bogus = 1\nmax_width = 'x'\n" \o Sep("#")), File("d/.luafmt.lua", Sep("@")), File("d/.luafmt.lua", "= 1"),
              NoRead("d/.luafmt.lua", ""), Bytes(".luafmt.lua")>>
Layouts == {"--field_separator=,", "--write_trailing_field_separator=true", "--newline_format_table_constructor=1", "--newline_format_table_field=1", "--write_newline_at_eof=true",
            "--remove_spaces_between_tokens=true", "--convert_charstring_to_normalstring=true", "--line_range=1:1", "--remove_comments=true", "--max_width=10"}

(* --- C22: arguments --- *)
Options == {"-i", "--inplace", "-r", "--recursive", "-v", "--verbose", "--field_separator=,", "--field_separator=", "--field_separator=a=b", "--field_separator==", "--bogus=1", "--max_width=abc",
            "-x", "--", "-", "-ir", "-rv", "--max_width=1\n2", "--bogus=\n", "-\ni", "--\n=1", "--field_separator=\n", "---i", "-iv", "-I", "--i", "-inplace", "--inplace=true", "-field_separator=,", "--field-separator=,", "--field_separator", "--line_range=1:1", "--line_range=x", "--=1",
            "--field_separator= ;", "-r=1", "--v", "-é", "--field_separator=\"#\"", "-1", "--hint_table_constructor=\\ ", "--recursive=", "--field_separator=,\n", "--line_range=3:1", "--remove_comments=true", "--remove_comments=", "--max_width=",
            "-" \o Odd.raw, "--field_separator=" \o Odd.raw, "--" \o Odd.raw \o "=1"}
\* long texts, whose last line is long or not
LongTexts(T) == {"x={" \o Many("1;", 900) \o "}", "x={" \o Many("1;", 900) \o "}\n", "x='" \o Many("a\n", 3000) \o "'", "--" \o Many("é", 1100), "x={1;\n" \o Many("2;", 5000) \o "}",
              "f({1;2})" \o Many(" \n", 700) \o "--" \o Many("-", 1500) \o "\n"} \cup IF T THEN {"x='" \o Many("0123456789", 7000) \o "'", Many("x={1;2}\n", 4000)} ELSE {}
Inputs == {TextIn(X), TextIn("x = = 1"), TextIn(""), BadIn, TextIn("#!/b\nx={1;2}"), TextIn("x={1;2} --é→"), TextIn("-i\n"), TextIn("x={1;2}\r\ny={'a';2}"), TextIn(X \o Odd.nul), TextIn(Odd.bom \o X)}

AB == <<File("a.lua", X), File("b.lua", Y), File("d/c.lua", Z), File("d/e/f.lua", X)>>

\* a way down
DeepDir(n) == JoinAll(LAMBDA j : "n" \o ToString(j), "/", n)
\* many files
ManyFiles(at, n) == [j \in 1..n |-> File(at \o "m" \o ToString(j) \o ".lua", C(j))]
\* every option alone
Singles == {<<n, IF n \in BoolOptions THEN "true" ELSE IF n = "line_range" THEN "1:1" ELSE IF n \in NumberOptions THEN "1" ELSE ",">> : n \in OptionNames}

(* --- C23: as deep as Lua allows --- *)
DeepTexts(T) == Nests(190) \cup Chains(150) \cup Nests(60) \cup IF T THEN Nests(199) \cup Chains(1000) ELSE {}

Family(p, T) ==
  LET s(q, t) == IF T THEN t ELSE q
  IN CASE p = "C17" -> <<
         [Base EXCEPT !.pre = {<<"-v">>}, !.args = {AsArg(a) : a \in Assignments}, !.nargs = 1, !.min = 1, !.ins = {TextIn(X)}],
         [Base EXCEPT !.pre = {<<"-v">>}, !.args = {AsArg(a) : a \in Assignments}, !.nargs = s(2, 3), !.min = 2, !.fan = s(1, 4), !.ins = {TextIn(X)}],
         [Base EXCEPT !.pre = {<<"-v">>}, !.args = {AsArg(a) : a \in {b \in Assignments : b[1] \in {"max_width", "field_separator", "remove_comments", "line_range", "newline_format_if"}}},
                      !.nargs = s(5, 7), !.min = s(4, 5), !.fan = s(2, 3), !.ins = {TextIn(X)}],
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.at = ".luafmt.lua", !.stmts = UNION {AsStatements(a) : a \in {b \in Assignments : Loads(b)}}, !.nst = 1, !.sk = s(2, 1), !.pre = {<<"-v", "a.lua">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.at = ".luafmt.lua", !.stmts = UNION {AsStatements(a) : a \in {b \in Assignments : Loads(b)}}, !.nst = s(2, 3), !.fan = s(1, 4), !.sk = s(6, 3),
                      !.seps = {"\n", ";"}, !.pre = {<<"-v", "a.lua">>}] >>
     [] p = "C18" -> <<
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.at = ".luafmt.lua", !.stmts = ConfigStatements, !.nst = 2, !.seps = {"\n", ";", " ; -- c\n"}, !.fan = s(8, 0), !.sk = s(3, 1),
                      !.pre = {<<"-v", "a.lua">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.at = ".luafmt.lua", !.stmts = ConfigStatements, !.nst = 1,
                      !.heads = {"", "#!/usr/bin/lua\n", "-- c\n", "\n\n", "field_separator = '%' ", ";"}, !.tails = {"", "return", "return {}\n", "return;", "--c", "\n--[[\n]]"}, !.sk = s(2, 1), !.pre = {<<"-v", "a.lua">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.at = ".luafmt.lua", !.stmts = ConfigStatements, !.nst = s(4, 5), !.seps = {"\n", " "}, !.fan = s(2, 3), !.sk = s(8, 40),
                      !.pre = {<<"a.lua", "--line_range=1:1">>, <<"-v", "a.lua">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X), File(".luafmt.lua", c), File("d/b.lua", Y), File("d/.luafmt.lua", Sep("#"))>> : c \in BrokenConfigs}
                                \cup {<<File("a.lua", X), e, File("d/b.lua", Y), File("d/.luafmt.lua", Sep("#"))>> : e \in {Bytes(".luafmt.lua"), NoRead(".luafmt.lua", Sep(","))}},
                      !.args = {"-v", "-i", "a.lua", "d", "--line_range=1:1"}, !.nargs = 3, !.min = 1, !.fan = s(2, 0)] >>
     [] p = "C19" -> <<
         [Base EXCEPT !.trees = {Deepen}, !.pool = Placements, !.nadd = 2, !.pre = {<<".", "-r">>, <<"d/e/c.lua", "d/b.lua", "a.lua">>}],
         [Base EXCEPT !.trees = {Deepen}, !.pool = Placements, !.nadd = s(3, 4), !.tk = s(4, 3), !.pre = {<<".", "-r">>, <<"-r", "@ROOT@/d", "l.lua", "ld">>, <<"-r", "ld", "f", "-v">>}],
         [Base EXCEPT !.trees = {Deepen \o <<Placements[1], Placements[2]>>}, !.args = {"--line_range=1:1", "--field_separator=%", "--field_separator=", "--bogus=1", "--max_width=x", "--max_width=50",
                      "--remove_comments=false", "-v", "-i", "--line_range=x", "--line_range=5:1", "--line_range=0:0", "--line_range=9:99"}, !.nargs = s(2, 4), !.post = {<<"-r", ".">>, <<"d/e/c.lua", "a.lua">>}],
         [Base EXCEPT !.trees = {Deepen}, !.pool = Placements, !.nadd = 2, !.tk = s(2, 1), !.cwds = {"d", "d/e"}, !.pre = {<<"../d", "-r">>, <<".", "-r", "-i">>, <<"../a.lua", "-v">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X), File(".luafmt.lua", Sep("#"))>>}, !.pre = {<<>>, <<"-v">>, <<"-i">>}, !.args = {AsArg(a) : a \in Singles}, !.nargs = s(1, 2), !.post = {<<"a.lua">>, <<".">>}],
         [Base EXCEPT !.trees = {<<File(DeepDir(n) \o "/a.lua", X), File(DeepDir(3) \o "/b.lua", Y), Link("l", DeepDir(n))>> : n \in s({5, 12, 20}, {5, 8, 12, 20, 40})},
                      !.pool = [j \in 1..s(6, 13) |-> File(DeepDir(j) \o "/.luafmt.lua", Sep(<<"#", "@", "%", "!", "$", "|", "&", "?", ";;", "+", "*", "<", ">">>[j]))] \o <<File(".luafmt.lua", Sep("^"))>>, !.nadd = 2,
                      !.pre = {<<"-r", ".">>, <<"l", "-v">>, <<"n1/../l/a.lua">>}] >>
     [] p = "C20" -> <<
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.pool = Sources, !.nadd = s(2, 3), !.pre = {<<"--field_separator=,">>}, !.post = {<<".">>, <<"-r", ".">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X)>> \o OpenSources}, !.pre = {<<"--field_separator=,">>, <<"--field_separator=,", "-r">>, <<"--recursive", "-v", "--max_width=9">>}, !.args = SourceArgs, !.nargs = s(2, 3), !.min = 1,
                      !.fan = s(8, 10)],
         [Base EXCEPT !.trees = {<<File("a.lua", X), File("b.lua", Y), File("c.txt", Z), File("d/a.lua", X), File("d/e/z.lua", Z), Link("ld", "d")>>}, !.pre = {<<"--field_separator=,">>, <<"-i", "--field_separator=,", "-r">>},
                      !.args = SourceArgs, !.nargs = 3, !.min = 2, !.fan = s(4, 12)],
         [Base EXCEPT !.trees = {<<File("a.lua", X)>> \o OpenSources}, !.cwds = {"d", "d/e"}, !.pre = {<<"--field_separator=,">>, <<"-r", "--field_separator=,">>},
                      !.args = {".", "..", "../a.lua", "../d", "e", "a.lua", "./", "../ld/a.lua", "@ROOT@/a.lua"}, !.nargs = s(2, 3), !.min = 1, !.ak = s(2, 1)],
         [Base EXCEPT !.trees = {ManyFiles(at, n) : at \in {"", "d/", "d/.e/"}, n \in s({20, 70}, {20, 33, 70, 140, 300})} \cup {ManyFiles("", 12) \o [j \in 1..12 |-> File("d/e/q" \o ToString(j) \o ".lua", C(20 + j))]},
                      !.pre = {<<"--field_separator=,", "-r">>, <<"--field_separator=,", "-r", "-i">>}, !.post = {<<".">>, <<"d">>, <<"d", "m7.lua", ".">>}],
         [Base EXCEPT !.trees = {[j \in 1..n |-> File(DeepDir(j) \o "/a.lua", C(j))] : n \in s({9, 18}, {9, 18, 30, 60})}, !.pre = {<<"--field_separator=,", "-r">>, <<"--field_separator=,", "-i", "-r">>},
                      !.post = {<<".">>, <<DeepDir(4)>>, <<DeepDir(4) \o "/..">>}] >>
     [] p = "C21" -> <<
         [Base EXCEPT !.trees = {<<File("a.lua", X)>>}, !.pool = Contents, !.nadd = s(2, 3), !.pre = {<<"-i", "--field_separator=,", "-r", ".">>, <<"-i", "--field_separator=,", "c.lua", "b.lua", "a.lua">>,
                      <<"--field_separator=,", "-r", ".">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X), File("d/n.lua", Y)>>}, !.pool = Contents \o Settings, !.nadd = 3, !.tk = s(9, 1), !.pre = {<<"-i", "-r", ".">>, <<"d", ".", "-i">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X), Contents[j]>> : j \in 1..Len(Contents)}, !.pre = {<<"-i">>, <<>>, <<"-i", "-v">>}, !.args = Layouts, !.nargs = s(2, 3), !.min = 1, !.fan = s(1, 4), !.ak = s(2, 1), !.post = {<<".">>}],
         [Base EXCEPT !.trees = {<<File("a.lua", X), Contents[j]>> : j \in 1..Len(Contents)}, !.pre = {<<"-i", "--field_separator=,">>}, !.args = {"a.lua", "./a.lua", "e.lua", ".", "c.lua", "missing.lua", "b.lua"}, !.nargs = 3, !.min = 2,
                      !.fan = s(2, 0), !.ak = s(2, 1)],
         [Base EXCEPT !.trees = {<<File("a.lua", c), File("b.lua", X)>> : c \in LongTexts(T)}, !.pre = {<<"--field_separator=,">>, <<"--field_separator=,", "-i">>, <<"-v", "--max_width=40", "--field_separator=,">>},
                      !.post = {<<"a.lua">>, <<".">>, <<"b.lua", "a.lua", "c.lua">>}] >>
     [] p = "C22" -> <<
         [Base EXCEPT !.args = Options, !.nargs = 2, !.fan = s(3, 0), !.ak = s(1, 1), !.ins = Inputs],
         [Base EXCEPT !.trees = {AB \o <<File(".luafmt.lua", Sep("#"))>>}, !.args = Options \cup {"a.lua", "d", "missing"}, !.nargs = 2, !.min = 1],
         [Base EXCEPT !.trees = {AB \o <<File(".luafmt.lua", Sep("#"))>>}, !.args = {"-i", "--inplace", "-r", "--recursive", "-v", "--verbose", "--field_separator=,", "--field_separator=@", "--bogus=1", "-x", "a.lua", "d", ".", "nothing"},
                      !.nargs = s(4, 6), !.min = 3, !.fan = s(4, 5), !.ak = s(1, 6)],
         [Base EXCEPT !.args = {"-i", "-v", "-x", "--field_separator=,", "--write_newline_at_eof=true", "--field_separator=,\n"}, !.nargs = s(2, 3), !.ins = {TextIn(c) : c \in LongTexts(T)}] >>
     [] p = "C05" -> <<
         [Base EXCEPT !.trees = {<<File("a.lua", c), File("b.lua", X), File(".luafmt.lua", Sep(","))>> : c \in BrokenConfigs \cup {"x = = 1\n", "end\n", "f(\n", "x = 'a\n", "--[[", "x = 1 +", "if x then", "x={1;2}} ", "return 1 x"}},
                      !.pre = {<<>>, <<"-i">>, <<"-v">>, <<"-i", "-v">>}, !.args = {"a.lua", "b.lua", ".", "--field_separator=#", "--line_range=1:1"}, !.nargs = s(2, 3), !.min = 1, !.fan = s(2, 0)],
         [Base EXCEPT !.pre = {<<>>, <<"-i">>, <<"-v">>, <<"--line_range=1:1">>}, !.ins = {TextIn(c) : c \in BrokenConfigs \cup {"x = = 1\n", "end\n", "f(\n", "x = 'a\n", "--[[", "x = 1 +", "x={1;2}} ", "return 1 x", X}}] >>
     [] p = "C23" -> <<
         [Base EXCEPT !.pre = {<<>>, <<"-v">>, <<"--newline_format_statement=1", "--newline_format_if=1", "--newline_format_function=1", "--newline_format_table_field=1">>, <<"--line_range=1:1">>},
                      !.ins = {TextIn(c) : c \in DeepTexts(T)}, !.ak = s(2, 1)],
         [Base EXCEPT !.trees = {<<File("a.lua", c), File("b.lua", X)>> : c \in DeepTexts(T)}, !.pre = {<<"-i", "--field_separator=,", ".">>, <<"--field_separator=,", "b.lua", "a.lua">>}, !.ak = s(2, 1)],
         [Base EXCEPT !.trees = {<<File("a.lua", X), File(".luafmt.lua", c \o "\nfield_separator = \"#\"\n")>> : c \in DeepTexts(T)}, !.pre = {<<"a.lua">>}, !.ak = s(2, 1)],
         [Base EXCEPT !.light = TRUE, !.args = {AsArg(a) : a \in Assignments} \cup Options, !.nargs = s(2, 3), !.min = 1, !.fan = s(2, 4), !.ins = {TextIn(X), BadIn, TextIn(Odd.bom \o "é" \o Odd.nul)}],
         [Base EXCEPT !.light = TRUE, !.trees = {<<File("a.lua", X)>>}, !.at = ".luafmt.lua", !.stmts = UNION {AsStatements(a) : a \in {b \in Assignments : Loads(b)}} \cup ConfigStatements, !.nst = s(2, 3), !.fan = s(1, 4),
                      !.pre = {<<"-v", "a.lua">>}],
         [Base EXCEPT !.light = TRUE, !.trees = {<<File("a.lua", X)>>, <<File("a.lua", X), File(".luafmt.lua", Sep(","))>>}, !.pool = Sources \o Contents \o Settings, !.nadd = 2, !.tk = s(9, 1),
                      !.pre = {<<"--field_separator=,", "-r", "-i", "-v", ".">>, <<".", "-r">>, <<"b.lua", "d", "a.lua", "missing", "ld/">>}],
         [Base EXCEPT !.light = TRUE, !.trees = {<<File("a.lua", X), File("d/.luafmt.lua", c), File("d/b.lua", c), File("e/b.lua", X), File("e/.luafmt.lua", Sep("#") \o c)>> : c \in BrokenConfigs \cup LongTexts(T)},
                      !.args = {"-v", "-i", "a.lua", "d", "e", "-r", "--line_range=1:1", "--line_range=0:0", "--max_width=0"} \cup SourceArgs, !.nargs = 2, !.min = 1, !.fan = s(1, 8), !.ak = s(2, 1), !.cwds = {"", "d"}] >>
     [] OTHER -> <<>>
=============================================================================
