------------------------------ MODULE Families -----------------------------
(***************************************************************************)
(* Which programs, gap fillings and configurations are explored for which  *)
(* property.  A family is a bounded instance of the generator Gen:         *)
(*   exhaustive: starts (sentential forms), dev (deviations), bases (usual *)
(*     gap), fdev (unusual gaps), fillers, cfgs (option assignments)       *)
(*   random: start, depth, n (number), percent/cpercent (unusual gaps and  *)
(*     comments), mode (how the configuration is drawn)                    *)
(*   texts: the sources of Texts(name) with each of cfgs                   *)
(* pk, gk, ck keep one of that many programs, gap fillings, configurations *)
(* (chosen by fingerprint and VERIF_SEED).  kind says which runs make a    *)
(* case (see Gen).                                                         *)
(***************************************************************************)
EXTENDS Grammar, Options, Shapes, FiniteSets

(* --- option values --- *)
BoolValues == <<"true", "false">>
NumberValues == <<"1", "2", "0">>
WidthValues == <<"5", "8", "10", "15", "20", "25", "30", "40", "50", "60", "80", "110", "120">>
TextValues(name) ==
  CASE name = "hint_after_multiline_comment" -> <<" ", "  ", "\t">>
    [] name = "hint_after_multiline_comment_text" -> <<" ", "", "  ">>
    [] name = "hint_before_comment" -> <<" ", "  ", "\t">>
    [] name = "hint_before_multiline_comment_text" -> <<" ", "", "  ">>
    [] name = "hint_before_oneline_comment_text" -> <<" ", "", "! ">>
    [] name = "hint_table_constructor" -> <<" ", "", "  ", "\t">>
    [] name = "indentation_string" -> <<"    ", "\t", "  ", "", " \t">>
    [] name = "field_separator" -> <<",", ";", " ;">>
Values(name) == CASE name \in BoolOptions -> BoolValues
                  [] name = "max_width" -> WidthValues
                  [] name \in NumberOptions -> NumberValues
                  [] OTHER -> TextValues(name)

(* --- configurations --- *)
NoCfg == <<>>
Compact == << <<"replace_zero_spaces_with_hint", "true">>, <<"hint_before_comment", " ">>, <<"hint_after_multiline_comment", " ">>,
              <<"remove_spaces_between_tokens", "true">>, <<"remove_single_newlines", "true">>, <<"remove_all_newlines", "true">> >>
\* keeps blank lines
Tidy == SubSeq(Compact, 1, 5)
Shipped == <<
  <<"replace_zero_spaces_with_hint", "true">>, <<"hint_after_multiline_comment", " ">>, <<"hint_after_multiline_comment_text", " ">>,
  <<"hint_before_comment", " ">>, <<"hint_before_multiline_comment_text", " ">>, <<"hint_before_oneline_comment_text", " ">>,
  <<"hint_table_constructor", " ">>, <<"remove_single_newlines", "true">>, <<"remove_spaces_between_tokens", "true">>,
  <<"write_newline_at_eof", "true">>, <<"write_newline_at_multiline_table", "false">>,
  <<"write_newline_at_explist_multiline_table", "true">>, <<"indentation_string", "    ">>, <<"indent_var_suffix", "true">>,
  <<"indent_exp_list", "true">>, <<"newline_format_oneline_comment", "1">>, <<"newline_format_statement", "1">>,
  <<"newline_format_do_end", "1">>, <<"newline_format_for", "1">>, <<"newline_format_function", "1">>, <<"newline_format_if", "1">>,
  <<"newline_format_repeat_until", "1">>, <<"newline_format_table_constructor", "1">>, <<"newline_format_table_field", "1">>,
  <<"newline_format_while", "1">>, <<"newline_format_binary_op", "1">>, <<"newline_format_var_suffix", "1">>,
  <<"newline_format_exp_list", "1">>, <<"field_separator", ",">>, <<"write_trailing_field_separator", "true">>,
  <<"convert_charstring_to_normalstring", "false">>, <<"max_width", "110">>, <<"force_single_line_table", "true">>,
  <<"force_single_line_iv_table_field", "false">>, <<"force_single_line_kv_table_field", "false">>,
  <<"force_single_line_binary_op", "true">>, <<"force_single_line_if", "true">>, <<"force_single_line_scoped_function", "true">>,
  <<"force_single_line_var_suffix", "true">>, <<"force_single_line_exp_list", "true">> >>

\* what the options of a property are
BlockOpts == <<"newline_format_statement", "newline_format_do_end", "newline_format_for", "newline_format_function", "newline_format_if",
               "newline_format_repeat_until", "newline_format_while", "indentation_string">>
TableOpts == <<"newline_format_table_constructor", "newline_format_table_field", "field_separator", "write_trailing_field_separator",
               "hint_table_constructor", "indentation_string", "write_newline_at_multiline_table", "force_single_line_table",
               "force_single_line_iv_table_field", "force_single_line_kv_table_field", "max_width">>
ExprOpts == <<"newline_format_binary_op", "newline_format_var_suffix", "newline_format_exp_list", "newline_format_exp_list_first",
              "indentation_string", "indent_var_suffix", "indent_one_line_var_suffix", "indent_exp_list", "indent_one_line_exp_list",
              "write_newline_at_explist_multiline_table", "newline_format_table_constructor", "newline_format_table_field">>
WidthOpts == <<"force_single_line_binary_op", "force_single_line_table", "force_single_line_iv_table_field", "force_single_line_kv_table_field",
               "force_single_line_if", "force_single_line_top_level_function", "force_single_line_scoped_function",
               "force_single_line_var_suffix", "force_single_line_exp_list">>
SpaceOpts == <<"remove_spaces_between_tokens", "replace_zero_spaces_with_hint", "hint_table_constructor">>
NewlineOpts == <<"remove_single_newlines", "remove_all_newlines", "write_newline_at_eof", "newline_format_statement",
                 "remove_spaces_between_tokens", "replace_zero_spaces_with_hint", "remove_comments", "newline_format_if",
                 "newline_format_table_field", "newline_format_binary_op">>
CommentOpts == <<"hint_before_comment", "hint_after_multiline_comment", "hint_after_multiline_comment_text",
                 "hint_before_multiline_comment_text", "hint_before_oneline_comment_text", "newline_format_first_oneline_comment",
                 "newline_format_first_multiline_comment", "newline_format_oneline_comment", "newline_format_multiline_comment",
                 "remove_comments", "remove_spaces_between_tokens", "remove_single_newlines", "remove_all_newlines",
                 "newline_format_statement", "newline_format_do_end", "indentation_string">>
AllOpts == BlockOpts \o TableOpts \o ExprOpts \o WidthOpts \o SpaceOpts \o NewlineOpts \o CommentOpts
           \o <<"convert_charstring_to_normalstring", "max_width">>

AllOn(opts) == [j \in 1..Len(opts) |-> <<opts[j], Values(opts[j])[1]>>]

\* base with one option set, and base with all options on but one set to v
OneOf(base, opts) ==
  UNION {{base \o << <<opts[j], Values(opts[j])[k]>> >> : k \in 1..Len(Values(opts[j]))} : j \in 1..Len(opts)}
  \cup UNION {{base \o AllOn(opts) \o << <<opts[j], Values(opts[j])[k]>> >> : k \in 1..Len(Values(opts[j]))} : j \in 1..Len(opts)}

\* tokens stay apart and comments stay comments
KeepApart == << <<"replace_zero_spaces_with_hint", "true">>, <<"hint_before_comment", " ">>, <<"hint_after_multiline_comment", " ">> >>

\* each of opts with the given chance, a random value
RandomOpts(opts, percent, x) ==
  LET step(st, j) ==
        LET x2 == Turn(st.x)
            vs == Values(opts[j])
        IN [x |-> Turn(x2), as |-> IF Chance(st.x, percent) THEN Append(st.as, <<opts[j], vs[Pick(x2, Len(vs))]>>) ELSE st.as]
  IN FoldLeft(step, [x |-> Turn(x), as |-> <<>>], [j \in 1..Len(opts) |-> j]).as

SpacePairs == {<< <<"remove_spaces_between_tokens", "true">> >>, << <<"replace_zero_spaces_with_hint", "true">> >>,
  << <<"remove_spaces_between_tokens", "true">>, <<"replace_zero_spaces_with_hint", "true">> >>,
  << <<"remove_spaces_between_tokens", "true">>, <<"replace_zero_spaces_with_hint", "true">>, <<"hint_table_constructor", " ">> >>,
  << <<"remove_spaces_between_tokens", "false">>, <<"hint_table_constructor", " ">> >>}
NewlineCfgs ==
  LET n(k) == << <<"remove_single_newlines", "true">>, <<"remove_all_newlines", "true">>, <<"write_newline_at_eof", "true">> >>[k]
      r == << <<"remove_spaces_between_tokens", "true">>, <<"replace_zero_spaces_with_hint", "true">> >>
  IN {<<n(1)>>, <<n(2)>>, <<n(3)>>, <<n(1), n(3)>>, <<n(2), n(3)>>, r \o <<n(1)>>, r \o <<n(2)>>, r \o <<n(3)>>, r \o <<n(1), n(3)>>,
      <<n(1), <<"remove_comments", "true">> >>, <<n(2), <<"remove_comments", "true">> >>, <<n(3), <<"newline_format_statement", "1">> >>, NoCfg}

\* new line breaks where the spaces stay
BreakCfgs == {<< <<o, "1">> >> : o \in {"newline_format_binary_op", "newline_format_var_suffix", "newline_format_exp_list", "newline_format_exp_list_first", "newline_format_table_constructor",
                                       "newline_format_table_field", "newline_format_statement", "newline_format_if", "newline_format_function"}}
             \cup {<< <<"newline_format_binary_op", "2">> >>, << <<"write_newline_at_eof", "true">> >>, AllOn(BlockOpts \o ExprOpts \o TableOpts)}

\* functions that are folded at one nesting level only
FuncCfgs == {Compact \o << <<"newline_format_function", "1">>, <<"force_single_line_table", t>>, <<"max_width", w>>, <<o, "true">> >> \o n
              : n \in {<<>>, << <<"newline_format_table_constructor", "1">>, <<"newline_format_table_field", "1">> >>}, t \in {"true", "false"}, w \in {"40", "80"}, o \in {"force_single_line_top_level_function", "force_single_line_scoped_function"}}
FuncStarts == {<<"x", "=", "Tbl1", "local", "function", "f", "(", ")", "Blk1", "end">>, <<"f", "Tbl1", "x", "=", "function", "Body">>, <<"x", "=", "{", "function", "Body", ",", "E", "}">>,
               <<"function", "FName", "Body", "function", "FName", "Body">>, <<"f", "(", "function", "Body", ",", "function", "Body", ")">>, <<"x", "[", "E", "]", "=", "function", "Body">>}

\* ifs on one line
IfStarts == {<<"if", "E", "then", "Blk1", "ElseIfs", "else", "Blk1", "end">>, <<"if", "E", "then", "Blk1", "ElseIfs", "end">>, <<"if", "E", "then", "Blk1", "else", "Blk1", "end">>,
             <<"if", "E", "then", "Blk1", "end">>, <<"if", "E", "then", "Blk1", "elseif", "E", "then", "Blk1", "elseif", "E", "then", "Blk1", "else", "Blk1", "end">>}
IfCfgs == {Compact \o << <<"newline_format_if", "1">>, <<"newline_format_statement", n>>, <<"force_single_line_if", "true">>, <<"max_width", w>> >> : n \in {"0", "1"}, w \in {"26", "40", "54", "90"}}
          \cup {Shipped \o << <<"max_width", w>> >> : w \in {"34", "60"}}

BaseOf(x) == LET k == Pick(x, 10) IN IF k <= 5 THEN Compact ELSE IF k <= 7 THEN Tidy ELSE IF k <= 9 THEN Shipped ELSE NoCfg

Width(x) == << <<"max_width", ToString(4 + Pick(x, IF Chance(Turn(x), 50) THEN 40 ELSE 100))>> >>

\* indentation that is not white space, of two characters in five bytes
OddIndent(x) == IF Chance(x, 8) THEN << <<"indentation_string", "é→">> >> ELSE NoCfg

OddBounds == <<"0", "1", "2", "3", "4", "7", "100", "999999999999", "18446744073709551615">>
OddRange(x) == OddBounds[Pick(x, Len(OddBounds))] \o ":" \o OddBounds[Pick(Turn(x), Len(OddBounds))]

\* assignments that change nothing
NoiseValues == <<"", "2.5", "TRUE", " 1", "-1", "x", "99999999999999999999", "yes">>
NoiseNames == <<"bogus", "max_width_", "newline_format", "line-range">>
RandomNoise(x) ==
  LET step(st, j) ==
        LET x2 == Turn(st.x)
            name == AllOpts[Pick(st.x, Len(AllOpts))]
        IN [x |-> Turn(x2), as |-> IF name \in TextOptions THEN Append(st.as, <<NoiseNames[Pick(x2, Len(NoiseNames))], "1">>)
                                   ELSE Append(st.as, <<name, NoiseValues[Pick(x2, Len(NoiseValues))]>>)]
  IN FoldLeft(step, [x |-> Turn(x), as |-> <<>>], [j \in 1..Pick(x, 8) |-> j]).as

\* the options a mode draws
RandomCfg(mode, x) ==
  LET y == Turn(Turn(x + 5))
      z == Turn(Turn(y))
  IN CASE mode = "none" -> NoCfg
       [] mode = "shipped" -> Shipped
       [] mode = "any" -> (IF Chance(x, 30) THEN Shipped ELSE NoCfg) \o RandomOpts(AllOpts, 5 + Pick(z, 40), y)
       [] mode = "safe" -> (IF Chance(x, 30) THEN Shipped ELSE NoCfg) \o RandomOpts(AllOpts, 5 + Pick(z, 40), y) \o KeepApart
       [] mode = "shippedwidth" -> Shipped \o (IF Chance(x, 50) THEN Width(z) ELSE NoCfg)
       [] mode = "variant" ->
            Shipped \o (CASE Pick(x, 3) = 1 -> Width(z)
                          [] Pick(x, 3) = 2 -> RandomOpts(<<"indentation_string">>, 100, y)
                          [] OTHER -> << <<BlockOpts[Pick(y, 7)], NumberValues[Pick(z, 3)]>> >>)
       [] mode = "history" ->
            (IF Chance(x, 40) THEN Shipped ELSE Compact) \o RandomOpts(AllOpts, 30, y) \o RandomNoise(z) \o RandomOpts(AllOpts, 20, Turn(z)) \o RandomNoise(y)
       [] mode = "blocks" -> BaseOf(x) \o RandomOpts(BlockOpts, 70, y) \o OddIndent(z)
       [] mode = "tables" -> BaseOf(x) \o RandomOpts(TableOpts, 60, y)
       [] mode = "exprs" -> BaseOf(x) \o RandomOpts(ExprOpts, 60, y)
       [] mode = "width" -> Shipped \o RandomOpts(WidthOpts, 60, y) \o Width(z) \o OddIndent(Turn(z))
       [] mode = "allon" -> Shipped \o AllOn(WidthOpts) \o Width(z)
       [] mode = "spaces" -> RandomOpts(SpaceOpts, 60, y)
       [] mode = "newlines" -> RandomOpts(NewlineOpts, 45, y)
       [] mode = "canonical" -> << <<"remove_spaces_between_tokens", "true">>, <<"replace_zero_spaces_with_hint", "true">> >>
                                \o (IF Chance(x, 50) THEN << <<"hint_table_constructor", " ">> >> ELSE <<>>)
                                \o (IF Chance(z, 30) THEN RandomOpts(BlockOpts \o ExprOpts, 30, y) ELSE <<>>)
       [] mode = "safecomments" -> BaseOf(x) \o RandomOpts(CommentOpts, 45, y) \o KeepApart
       [] mode = "rangecfg" -> (IF Chance(x, 50) THEN Shipped ELSE IF Chance(y, 50) THEN Compact ELSE NoCfg) \o RandomOpts(AllOpts, 5 + Pick(z, 30), y) \o KeepApart
       [] mode = "anyrange" -> (IF Chance(x, 30) THEN Shipped ELSE NoCfg) \o RandomOpts(AllOpts, 5 + Pick(z, 40), y)
                               \o (IF Chance(z, 40) THEN << <<"line_range", OddRange(Turn(z))>> >> ELSE <<>>)
       [] mode = "mixed" -> BaseOf(x) \o RandomOpts(AllOpts, 5 + Pick(z, 50), y) \o (IF Chance(z, 60) THEN Width(Turn(z)) ELSE <<>>)
       [] mode = "lists" -> Compact \o RandomOpts(ExprOpts, 70, y) \o RandomOpts(WidthOpts, 60, Turn(y)) \o Width(z)
       [] mode = "comments" -> BaseOf(x) \o RandomOpts(CommentOpts, 45, y)

(* --- sources given as texts --- *)
\* all texts of up to n pieces
RECURSIVE Words(_, _)
Words(A, n) == IF n = 0 THEN {""} ELSE LET w == Words(A, n - 1) IN w \cup {p \o q : p \in w, q \in A}

Wrap(w) == {"x=" \o w, "f" \o w, "return {" \o w \o "," \o w \o "}", "x = {[ " \o w \o "] = 1} y[ " \o w \o "]=" \o w}

QuotedBodies(n) == Words({"a", "\\", "\"", "'", "\\\n", "é"}, n)
Quoted(q, n) == {w \in {q \o b \o q : b \in QuotedBodies(n)} : LET L == Lex(w) IN L.ok /\ Len(L.T) = 1}
Escapes == {"\\0", "\\0651", "\\9x", "\\x00", "\\u{10FFFF}", "\\u{7f}", "\\n", "\\\\", "\\\"", "\\'", "\\065", "\\x41", "\\u{48}", "\\z  ", "\\a\\b\\f\\r\\t\\v", "\\\\\\\"", "\\\\\\'", "  lead", "trail  ", "--c", "[[x]]", "]]", "\t", "日本", "\r", "a\r\nb", "\\\r\n", "\\\r", Odd.nul, Odd.nbsp, Odd.bom, "\f", "\\\n", "\n"}
RawLong == {o[1] \o b \o o[2] : o \in {<<"[[", "]]">>, <<"[=[", "]=]">>, <<"[====[", "]====]">>, <<"[======[", "]======]">>},
              b \in {"\r", "a\r\nb", "\n\ra", "\r\n", "\t", Odd.nul, Odd.bom, Odd.nbsp, " ]] ] ", "--[[", "]=== ]", "\f\\f"}}
LongBodies(n) == Words({"]", "=", "a", "\n", "\\", "[", "--", "\"", " "}, n)
Long(n) == {w \in {"[[" \o b \o "]]" : b \in LongBodies(n)} \cup {"[=[" \o b \o "]=]" : b \in LongBodies(n)} \cup {"[==[" \o b \o "]==]" : b \in LongBodies(2)} :
              LET L == Lex(w) IN L.ok /\ Len(L.T) = 1}

\* Lua 5.3 numerals over a small alphabet
IsHexDigits(s) == \A j \in 1..Len(s) : SubSeq(s, j, j) \in HexDigit
IsDecDigits(s) == \A j \in 1..Len(s) : SubSeq(s, j, j) \in Digit
SplitAt(s, C) == LET cs == Chars(s) e == {j \in 1..Len(s) : cs[j] \in C} IN IF e = {} THEN 0 ELSE CHOOSE j \in e : \A k \in e : j <= k
Mantissa(s, D(_)) == LET d == SplitAt(s, {"."})
                     IN IF d = 0 THEN s # "" /\ D(s) ELSE Len(s) > 1 /\ D(SubSeq(s, 1, d - 1)) /\ D(SubSeq(s, d + 1, Len(s)))
Exponent(s) == LET t == IF s # "" /\ FirstChar(s) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s IN t # "" /\ IsDecDigits(t)
IsNumeral(s) ==
  IF Len(s) > 1 /\ FirstChar(s) = "0" /\ SubSeq(s, 2, 2) \in {"x", "X"}
  THEN LET r == SubSeq(s, 3, Len(s))
           p == SplitAt(r, {"p", "P"})
       IN IF p = 0 THEN Mantissa(r, IsHexDigits) ELSE Mantissa(SubSeq(r, 1, p - 1), IsHexDigits) /\ Exponent(SubSeq(r, p + 1, Len(r)))
  ELSE LET e == SplitAt(s, {"e", "E"})
       IN IF e = 0 THEN Mantissa(s, IsDecDigits) ELSE Mantissa(SubSeq(s, 1, e - 1), IsDecDigits) /\ Exponent(SubSeq(s, e + 1, Len(s)))
Numerals(n) == {w \in Words({"0", "7", "x", "X", ".", "e", "E", "+", "-", "A", "f"}, n) : w # "" /\ FirstChar(w) \in Digit \cup {"."} /\ IsNumeral(w)}
\* hexadecimal floats are a known finding
IsHexFloat(w) == Len(w) > 1 /\ SubSeq(w, 2, 2) \in {"x", "X"} /\ SplitAt(w, {".", "p", "P"}) # 0

LexNames == {"continue", "class", "switch", "const", "close", "global", "elif", "End", "_G", "then1", "untill", "elseiff", "els", "local_", "dofile", "Nil", "True", "N0t", "andd", "orr", "forin", "repeats", "breaks", "whiles", "functions", "import", "export", "async", "type", "new", "_", "_1", "a1", "Z9_", "ends", "If", "iff", "nott", "do_", "_end", "andor", "returns", "in_", "gotox", "e1", "x0x", "self"}
Comments == {"--", "--\n", "--x", "--[x", "--[=x\n", "--[==\n", "--]]\n", "--[[]]", "--[[\n]]", "--[==[]]]=]]==]", "--[[--]]", "-- [[\n", "---[[x\n", "--[[a]] --b",
             "--[=[\n]]\n]=]", "--é→\n", "--\\\n", "--[[\\]]", "--#!\n", "--'\n", "--\"\n", "--  \n", "--\t\r\n", "--[[ ]]", "--[[\n]]", "--[=[ \n]=]", "--a\rb\n", "--[[a\r\nb\r]]", "--[====[b]====]", "--[======[ ]=====] ]======]", "--[======[\n--]]\n]======]", "--[[b] ]]", "--[=[b]= ]=]", "--[==[b]= ]==]", "--[=[ ] ]=]", "-- [=[\n", "--  [x[\n", "-- [==\n"}

\* literals w at every place that an expression can have
Placed(w) ==
  LET bodies == {"f" \o w, "x=" \o w, "return " \o w, "local a=" \o w, "f(a," \o w \o ")", "do f" \o w \o " end"}
  IN {"f(" \o w \o ")", "f(a," \o w \o ",b)", "f" \o w, "a:m" \o w, "a:m(" \o w \o ")", "a.b" \o w \o w, "x={" \o w \o "}", "x={[" \o w \o "]=1}", "x={[1]=" \o w \o "}", "x={k=" \o w \o "}", "x={a;{" \o w \o "};}",
      "x[" \o w \o "]=1", "x=a[" \o w \o "]", "x=a[" \o w \o "].b", "a[" \o w \o "]()", "a[" \o w \o "]:b()", "x,y[" \o w \o "]=1,2", "return a," \o w, "return " \o w \o ";", "local a,b=b," \o w, "a,b=" \o w \o ",b", "a,b=b," \o w,
      "x=(" \o w \o ")", "x=(" \o w \o "):f()", "(" \o w \o "):f()", "x=-" \o w, "x=not " \o w, "x=#" \o w,
      "x=~" \o w, "x=a.." \o w, "x=" \o w \o "..a..b", "x=a+b==" \o w, "x=(a)" \o w, "f(" \o w \o ")(" \o w \o ")[" \o w \o "]()", "#!/b\nx=" \o w, "f{" \o w \o ";" \o w \o "}", "f({" \o w \o "}," \o w \o ")", "f()" \o w, "f{}" \o w, "f(function() return " \o w \o " end)"}
     \cup UNION {{"if " \o w \o " then " \o b \o " end", "if a then " \o b \o " elseif " \o w \o " then " \o b \o " end", "if a then elseif b then " \o b \o " elseif " \o w \o " then else " \o b \o " end", "if " \o w \o " then else " \o b \o " end",
                   "while " \o w \o " do " \o b \o " end", "repeat " \o b \o " until " \o w, "for i=" \o w \o ",1 do " \o b \o " end", "for i=1," \o w \o " do " \o b \o " end", "for i=1,2," \o w \o " do " \o b \o " end",
                   "for i=" \o w \o ",2,3 do " \o b \o " end", "for i=1," \o w \o ",3 do " \o b \o " end", "for i in " \o w \o " do " \o b \o " end", "for i in a," \o w \o " do " \o b \o " end", "f(" \o w \o ",function() " \o b \o " end)",
                   "x[" \o w \o "],y=function() " \o b \o " end", "a" \o w \o ":b(function() " \o b \o " end)"} : b \in {"", "f()", "return", "f() return 1"}}
     \cup UNION {{"do " \o b \o " end", "while a do " \o b \o " end", "repeat " \o b \o " until a", "if a then " \o b \o " end", "if a then else " \o b \o " end", "if a then elseif b then " \o b \o " end", "if a then f() elseif b then " \o b \o " else f() end",
                   "for i=1,2 do " \o b \o " end", "for i=1,2,3 do " \o b \o " end", "for i in a do " \o b \o " end", "function f() " \o b \o " end", "local function f(a) " \o b \o " end", "function a.b:c(...) " \o b \o " end",
                   "x=function() " \o b \o " end", "f() " \o b, "f();" \o b \o ";", "::l::" \o b, "if a then f() " \o b \o " else g() end", "do f();" \o b \o " end"} : b \in bodies}

\* one part of a program replaced by something that may not stand there (or may: the grammar decides)
Placing(ts, ws) == {t[1] \o w \o t[2] : t \in ts, w \in ws}
NamePlaces == { <<"goto ", "">>, <<"::", "::">>, <<"local ", "">>, <<"local ", "=1">>, <<"local a,", "=1">>, <<"for ", "=1,2 do end">>, <<"for ", " in a do end">>, <<"for a,", " in b do end">>, <<"local function ", "() end">>,
                <<"function f(", ") end">>, <<"function f(a,", ") end">>, <<"x=function(", ") end">>, <<"x=a.", "">>, <<"f(a.", ")">>, <<"a.", "()">>, <<"a:", "()">>, <<"a:", "'s'">>, <<"a:", "{}">>, <<"function a.", "() end">>,
                <<"function a:", "() end">>, <<"function ", "() end">>, <<"x={", "=1}">>, <<"x={a;", "=1}">>, <<"x.", "=1">>, <<"local function f(a,", ",b) end">> }
NameWords == {"a", "a.b", "a,b", "a:b", "1", "'s'", "nil", "...", "(a)", "a b", "{}", "end", "", "a;", "a[1]", "a()", "a=1", "-a", "not", "a.b:c", ",", "[[s]]", "::a::", "true", "a-b", "function() end", "a,", ",a", "a<const>", "a:", ":a",
              "a.", "..a", "...,a", "a,...", "a.b.c", "_", "(...)", "[a]", "goto", "and", "a=", "a.nil", "a.1", "a--b", "a:b:c" }
ExprPlaces == { <<"x=", "">>, <<"x,y=", "">>, <<"f(", ")">>, <<"f(a,", ")">>, <<"return ", "">>, <<"if ", " then end">>, <<"if a then elseif ", " then end">>, <<"while ", " do end">>, <<"repeat until ", "">>, <<"for i=", ",2 do end">>,
                <<"for i=1,", " do end">>, <<"for i=1,2,", " do end">>, <<"for i in ", " do end">>, <<"x={", "}">>, <<"x={[", "]=1}">>, <<"x={k=", "}">>, <<"x[", "]=1">>, <<"local a=", "">>, <<"x=(", ")">>, <<"x=a+", "">>,
                <<"x=", "+a">>, <<"x=not ", "">>, <<"x=a.b[", "]">>, <<"f(", ")()">>, <<"x=a..", "..b">> }
ExprWords == {"a=1", "a b", "end", "", "a,", ",a", "a,b", "local", "f() g()", "a::b", ";", "return 1", "do end", "a;", "x.", "1 2", "'a' 'b'", "{", "}", "(", "()", "a+", "+a", "a not b", "not", "a==", "==a", "a=~b", "a!=b", "a~", "a#b", "#", "...",
              "...a", "... ...", "a:b", "a.1", "a[", "a[]", "a[1,2]", "{a=}", "{=1}", "{,}", "{a,,b}", "{a;;}", "{[1]}", "{1=2}", "{a.b=1}", "{[a]b}", "{a b}", "function end", "function f() end", "function(a,) end", "function(...,a) end",
              "function() end()", "(function() end)()", "'a'()", "('a'):b()", "'a':b()", "{}()", "nil()", "1.a", "a//b", "a///b", "a<<b", "a<<<b", "a&&b", "a?b:c", "!a", "a++", "a+=1", "a->b", "a=>b", "@a", "$a", "a`", "goto", "x\\", "a and", "and a",
              "a and or b", "(a", "a)", "(a))", "[a]", "[[a]", "[=[a]]", "'a", "\"a'", "--[[a", "--[==[a]]"}
StatPlaces == { <<"", "">>, <<"x=1 ", "">>, <<"", " f()">>, <<"do ", " end">>, <<"while a do ", " end">>, <<"repeat ", " until a">>, <<"if a then ", " end">>, <<"if a then else ", " end">>, <<"if a then elseif b then ", " end">>,
                <<"for i=1,2 do ", " end">>, <<"for i in a do ", " end">>, <<"function f() ", " end">>, <<"x=function() ", " end">>, <<"f();", ";">> }
StatWords == {"x", "x,y", "local", "goto", "::a", "a::", "1", "'s'", "x=1=2", "local x.y=1", "local a[1]=2", "local a()=1", "local (a)=1", "local ...=1", "local a=", "local =1", "local a b", "function() end", "local function a.b() end", "local function a:b() end",
              "local function() end", "return return", "return;;", "return x=1", "return 1 f()", "return; f()", "break 1", "a=", "=1", "a,=1", ",a=1", "a:b", "a:b=1", "a.b.c:d", "else", "elseif a then", "until a", "then", "in", "end", "do", "x+=1",
              "x++", "f(a,)", "f(,)", "f(a b)", "f(a;b)", "f(", "f)", "for a do end", "for a,b=1,2 do end", "for a=1 do end", "for a=1,2,3,4 do end", "for a.b=1,2 do end", "for (a) in b do end", "for a in do end", "for in a do end", "for a=1,2 end",
              "for a=1,2 do", "for a b in c do end", "for a[1] in b do end", "if a then else else end", "if a then else elseif b then end", "if a end", "if a do end", "if then end", "if a then", "if a then elseif end", "if a then elseif b end",
              "if a then elseif then end", "if a then elseif b then else", "else if a then end", "while a then end", "while do end", "while a do", "repeat end", "repeat until", "repeat a", "do until a", "do", "function f end", "function f()",
              "function f(a,) end", "function f(...,a) end", "function f(1) end", "function f(a b) end", "function a:b.c() end", "function a:b:c() end", "function a[1]() end", "function (a)() end", "function a.() end", "function a..b() end", "function 'a'() end",
              "function f(a=1) end", "function f(a.b) end", "function f(,) end", "function f(...,...) end", "function f(....) end", "::a:b::", "::::", "::1::", ":: a b ::", ":a:", "goto 1", "goto a.b", "goto 'a'", "goto a b", "a:b:c()", "a.:b()",
              "a:b.c()", "a:[1]()", "a.(b)", "a.[1]=2", "a[1=2", "a]1[=2", "a.b:c 1", "f 1", "f nil", "f a", "f function() end", "f...", "x={", "x=}", "import a", "class a end", "return", "return,", "return a,", ";;", "break", "break;", "goto a", "#!x", "x=#",
              "and", "not a", "-a", "(a)=", "a b=1", "a=1,", "a=1 2", "a==1", "a=1;=2", "local local a", "local a,", "local a,b,=1", "local a:b=1", "local a,function f() end", "local if a then end", "x=if a then b else c end", "...", "...=1", "x=1;,", "[a]=1", "{}=1", "f()()=", "(f)"}

\* soup for robustness
Frags == {"a", "(", ")", "{", "}", "[", "--", "[[", "]]", "'", "\"", "\\", "\n", "=", "0x", "1e", "#!", "é", " ", "end", "if x then", "function", "::", ";", ".", ":", "return", ",", "-", "\t", "\r"}
FragSeq == SetToSeq(Frags)
Soup(x) == LET step(st, j) == [x |-> Turn(st.x), s |-> st.s \o FragSeq[Pick(st.x, Len(FragSeq))]]
           IN FoldLeft(step, [x |-> Turn(x), s |-> ""], [j \in 1..Pick(x, 14) |-> j]).s

\* the options under which deep nesting is not written again and again
Plain == Compact \o AllOn(BlockOpts) \o << <<"newline_format_table_constructor", "1">>, <<"newline_format_table_field", "1">>, <<"newline_format_binary_op", "1">>, <<"newline_format_var_suffix", "1">>,
                                          <<"newline_format_exp_list", "1">> >>

RECURSIVE Texts(_)
Texts(name) ==
  CASE name = "quoted3" -> UNION {Wrap(w) : w \in Quoted("'", 3) \cup Quoted("\"", 2)}
    [] name = "quoted5" -> UNION {{"x=" \o w, "f" \o w} : w \in Quoted("'", 5) \cup Quoted("\"", 4)}
    [] name = "quoted4" -> UNION {{"x=" \o w} : w \in Quoted("'", 4)}
    [] name = "escapes" -> UNION {Wrap("'" \o e \o "'") \cup Wrap("\"" \o e \o "\"") \cup Wrap("'" \o e \o "\"" \o e \o "'") : e \in Escapes}
    [] name = "long2" -> UNION {Wrap(w) : w \in Long(2)} \cup UNION {Wrap(w) : w \in {v \in RawLong : LET L == Lex(v) IN L.ok /\ Len(L.T) = 1}}
    [] name = "long3" -> UNION {{"x=" \o w, "f" \o w} : w \in Long(3)} \cup Texts("long2")
    [] name = "numbers4" -> UNION {{"x=" \o w, "x={" \o w \o ";" \o w \o "}", "x=" \o w \o "+" \o w} : w \in {v \in Numerals(4) : ~IsHexFloat(v)}}
    [] name = "numbers5" -> UNION {{"x=" \o w, "x={" \o w \o ";" \o w \o "}", "x=-" \o w \o " ..y"} : w \in {v \in Numerals(5) : ~IsHexFloat(v)}}
    [] name = "names" -> UNION {{w \o "=" \o w, w \o "." \o w \o ":" \o w \o "()", "local " \o w, "goto " \o w, "for " \o w \o " in " \o w \o " do end", "x={" \o w \o "=" \o w \o "}"} : w \in LexNames}
    [] name = "comments" -> UNION {{w, "x=1" \o w, w \o "\nx=1", "x=1 " \o w \o "\n", "#!/b\n" \o w, "f(" \o w \o "\n)", "return " \o w \o "\n1"} : w \in Comments}
    [] name = "commentpairs" -> {"x=1" \o v \o (IF LastChar(v) = "\n" THEN "" ELSE " ") \o w \o "\ny=2" : v \in {c \in Comments : (Len(c) > 3 /\ SubSeq(c, 1, 3) = "--[") \/ LastChar(c) = "\n"}, w \in {"--c", "--[[b]]", "--[==[ b]==]"}}
    [] name = "longtables" -> UNION {{"x={" \o JoinAll(LAMBDA j : "a" \o ToString(j), ",", n) \o t \o "}", "f{" \o JoinAll(LAMBDA j : "a" \o ToString(j) \o "=" \o ToString(j), ";", n) \o t \o "}"} : n \in {63, 64, 65, 127, 128, 129, 255, 256, 257}, t \in {"", ","}}
    [] name = "placed" -> Placed("'a'") \cup Placed("'\"'") \cup Placed("\"a\"")
    [] name = "placedlong" -> Placed("[[a\n ]]") \cup Placed("0x1F") \cup Placed("{1;2}") \cup Placed("function() return 1 end") \cup Placed("{a={b;}}")
    [] name = "placedcomments" -> Placed("--[[c]]'a'--[[d]]") \cup Placed(" --c\n'a' --d\n")
    [] name = "placedlines" -> Placed("\n'a'\n") \cup Placed("'a'\n\n") \cup Placed("  'a' \t")
    [] name = "edges" -> LET cs == {Odd[k] : k \in DOMAIN Odd} \cup {"\\", "#", "#!", "@", "\r", "\f", "'", "--[[", "--", "end", ";", ")", "=", "0", "x"}
                              ps == {"x=1", "x=1\n", "f()", "return", "return f();", "", "do end", "--c\n", "--[[c]]", "x='a'", "x=[[a]]", "#!/b\n", "{", "\n\n"}
                          IN UNION {{p \o c, c \o p, p \o " " \o c \o "\n", p \o c \o p} : p \in ps, c \in cs}
    [] name = "unary" -> {"x=" \o w \o "a" : w \in {v \in Words({"- ", "not ", "#", "~"}, 4) : \A j \in 1..(Len(v) - 3) : SubSeq(v, j, j + 3) # "- - "}}
    [] name = "blanks" -> Words({" ", "\t", "\n", "\r", "\f", Odd.vt, "--", ";"}, 3)
    [] name = "chains" -> Chains(4) \cup Chains(7)
    [] name = "longchains" -> Chains(13) \cup Chains(40)
    [] name = "nests" -> Nests(3) \cup Nests(4)
    [] name = "deepnests" -> Nests(9) \cup Nests(30)
    [] name = "verydeep" -> Nests(100) \cup Nests(199) \cup Chains(300)
    [] name = "statements" -> {t \in UNION {Placed(w) : w \in {"'a'", "[[a\n ]]", "{1;2}", "function(a) return 1 end", "{a={b;}}"}} \cup Chains(4) \cup Nests(2) \cup Nests(4) :
                                 FirstChar(t) \notin {"(", "#"} /\ LastChar(t) # "\n" /\ \A j \in 1..(Len(t) - 1) : SubSeq(t, j, j + 1) \notin {"--", "\n\n"}}
    [] name = "nearmiss" -> Placing(NamePlaces, NameWords) \cup Placing(ExprPlaces, ExprWords) \cup Placing(StatPlaces, StatWords)
    [] name = "placedwide" -> Placed("[[a23456789\n]]") \cup Placed("[[\na23456789\nb]]") \cup Placed("'a2345' --[[\nc]]")
    [] name = "placedblanks" -> Placed("\f'a'" \o Odd.vt) \cup Placed(Odd.vt \o "\n\f'a'\f\n\r")
    [] name = "soup2" -> Words(Frags, 2)

(* --- families --- *)
Stat == {<<"S">>}
Files == {<<"Chunk">>}
Nested == {<<"do", "S", "end">>, <<"return", "function", "(", ")", "S", "end">>, <<"if", "x", "then", "S", "else", "f", "(", ")", "end">>,
           <<"x", "=", "1", "+", "function", "(", ")", "S", "end">>, <<"x", "=", "{", "function", "(", ")", "S", "end", "}">>}
TableStarts == {<<"x", "=", "Tbl1">>, <<"f", "(", "Tbl1", ")">>, <<"local", "a", "=", "{", "Tbl1", "}">>, <<"f", "Tbl1">>,
                <<"return", "{", "Tbl1", ",", "Tbl1", "}">>, <<"x", "=", "{", "k", "=", "Tbl1", "}">>, <<"do", "x", "=", "Tbl1", "end">>,
                <<"return", "x", ",", "Tbl1">>}
ExprStarts == {<<"x", "=", "E">>, <<"return", "E", "Bin", "E">>, <<"f", "(", "E", ",", "E", ")">>, <<"a", "Suf", "Suf", "CallEnd">>,
               <<"local", "a", "=", "E", "Bin", "E">>, <<"return", "E", ",", "E">>, <<"if", "E", "then", "f", "(", "E", ")", "end">>,
               <<"x", "[", "E", "]", "=", "a", "Suf">>, <<"a", ",", "b", "=", "E", ",", "E">>, <<"for", "i", "in", "E", ",", "E", "do", "end">>,
               <<"(", "E", ")", "Suf", "CallEnd">>}
\* statements on lines of their own
LineStarts == {<<"S", "\n", "S", "\n", "S">>, <<"f", "(", ")", "\n", "S", "\n", "Ret">>, <<"S", "\n", "\n", "S", ";", "f", "(", ")">>,
               <<"S", "--c\n", "S", "\n", "--[[b]]", "S", "\n">>}

\* constructs that may be folded, inside two blocks
DeepStarts == {<<"do", "do">> \o m \o <<"end", "end">> : m \in {<<"x", "=", "{", "E", ",", "E", "}">>, <<"f", "(", "E", ",", "E", ")">>, <<"x", "=", "E", "Bin", "E">>, <<"a", "Suf", "Suf", "CallEnd">>,
                <<"if", "E", "then", "Blk1", "else", "Blk1", "end">>, <<"local", "function", "f", "Body">>, <<"x", "=", "{", "k", "=", "E", ",", "{", "E", "}", "}">>, <<"return", "E", ",", "E">>}}

Exh(kind, starts, dev, bases, fdev, fillers, cfgs, pk, gk, ck) ==
  [gen |-> "exh", kind |-> kind, starts |-> starts, dev |-> dev, bases |-> bases, fdev |-> fdev, fillers |-> fillers, cfgs |-> cfgs,
   pk |-> pk, gk |-> gk, ck |-> ck]
Rnd(kind, start, depth, n, percent, cpercent, mode) ==
  [gen |-> "rnd", kind |-> kind, start |-> start, depth |-> depth, n |-> n, percent |-> percent, cpercent |-> cpercent, mode |-> mode]
Txt(kind, name, cfgs, ck) == [gen |-> "txt", kind |-> kind, name |-> name, cfgs |-> cfgs, ck |-> ck]
SoupFam(n, mode) == [gen |-> "soup", kind |-> "one", n |-> n, mode |-> mode]

AllSafe == AllOn(AllOpts) \o KeepApart
LongCfgs == {Shipped, AllSafe, Plain, Compact, Shipped \o << <<"max_width", "40">> >>, Shipped \o << <<"max_width", "24">> >>, Plain \o << <<"indent_exp_list", "true">>, <<"indent_var_suffix", "true">> >>}
\* widths at the bounds of machine numbers, 0 and nothing
HugeCfgs == {b \o << <<"max_width", w>> >> : b \in {Shipped, Shipped \o AllOn(WidthOpts), AllOn(AllOpts)},
                                              w \in {"0", "1", "2", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"}}
DeepCfgs == {NoCfg, Compact, Plain}
\* long and deep sources
LongFams(kind, cfgs, deep, T, k) ==
  << Txt(kind, "chains", cfgs, IF T THEN 1 ELSE k), Txt(kind, "nests", cfgs, IF T THEN 1 ELSE k),
     Txt(kind, "longchains", cfgs, IF T THEN 2 ELSE 4 * k), Txt(kind, "deepnests", deep, IF T THEN 1 ELSE 2) >>
TextHints == <<"hint_after_multiline_comment_text", "hint_before_multiline_comment_text", "hint_before_oneline_comment_text">>
SafeCfgs == {KeepApart, Compact, Shipped, AllSafe}
Conv == {NoCfg, << <<"convert_charstring_to_normalstring", "true">> >>, Shipped \o << <<"convert_charstring_to_normalstring", "true">> >>}
None1 == {NoCfg}
Gaps == {Fillers[j] : j \in 1..Len(Fillers)}
Blanks == {BlankFill[j] : j \in 1..Len(BlankFill)}
CommentGaps == {CommentFill[j] : j \in 1..Len(CommentFill)}

\* T: thorough
Family(p, T) ==
  LET s(q, t) == IF T THEN t ELSE q
  IN CASE p = "C01" -> <<
         Exh("one", Stat, s(2, 3), {"", " "}, 0, {}, SafeCfgs, 1, 1, s(4, 16)),
         Exh("one", Files \cup Nested, s(1, 2), {"", " "}, 1, Gaps, SafeCfgs, 1, s(4, 8), s(4, 4)),
         Rnd("one", "Chunk", 2, s(1000, 20000), 15, 15, "safe"),
         Rnd("one", "Chunk", 3, s(700, 20000), 6, 6, "safe"),
         Rnd("range", "Chunk", 2, s(300, 6000), 25, 10, "safe"),
         Txt("one", "placed", SafeCfgs, s(3, 1)), Txt("one", "placedlong", SafeCfgs, s(4, 1)), Txt("one", "placedcomments", SafeCfgs, s(3, 1)) >> \o LongFams("one", LongCfgs, DeepCfgs, T, 2)
     [] p = "C02" -> <<
         Exh("one", Stat \cup Files, s(1, 2), {"", " "}, 1, CommentGaps, SafeCfgs \cup {NoCfg, KeepApart \o << <<"remove_comments", "true">> >>}, 1, s(1, 8), s(4, 6)),
         Exh("one", ExprStarts \cup TableStarts, 1, {" "}, 1, CommentGaps, SafeCfgs \cup {NoCfg}, 1, s(8, 2), s(5, 2)),
         Rnd("one", "Chunk", 2, s(1200, 25000), 15, 30, "safe"),
         Rnd("one", "Chunk", 2, s(600, 12000), 10, 30, "safecomments"),
         Txt("one", "comments", SafeCfgs \cup {NoCfg} \cup OneOf(KeepApart, CommentOpts) \cup OneOf(NoCfg, TextHints), s(6, 1)),
         Txt("one", "commentpairs", SafeCfgs \cup OneOf(KeepApart, TextHints), s(6, 1)),
         Txt("one", "placedcomments", SafeCfgs \cup OneOf(KeepApart, CommentOpts), s(12, 1)) >> \o LongFams("one", LongCfgs, DeepCfgs, T, 3)
     [] p = "C03" -> <<
         Exh("one", Stat, s(2, 3), {"", " \t"}, 0, {}, None1, 1, 1, 1),
         Exh("one", Files \cup ExprStarts \cup TableStarts, s(1, 2), {"", " "}, 1, Gaps, None1, 1, s(4, 24), 1),
         Rnd("one", "Chunk", 3, s(1500, 30000), 40, 20, "none"),
         Txt("one", "comments", None1, 1), Txt("one", "blanks", None1, 1), Txt("one", "names", None1, 1), Txt("one", "edges", None1, 1),
         Txt("one", "placed", None1, 1), Txt("one", "placedlong", None1, 1), Txt("one", "placedcomments", None1, 1), Txt("one", "placedlines", None1, 1), Txt("one", "placedblanks", None1, 1) >> \o LongFams("one", None1, None1, T, 1)
     [] p = "C04" -> <<
         Exh("one", Stat, 2, {"", " ", "\n"}, 0, {}, None1, 1, 1, 1),
         Exh("one", Stat \cup Files, 3, {""}, 0, {}, None1, s(40, 1), 1, 1),
         Exh("one", ExprStarts, 2, {""}, 0, {}, None1, s(4, 1), 1, 1),
         Exh("one", Files, 1, {""}, 1, Gaps, None1, 1, 1, 1),
         Rnd("one", "Chunk", 3, s(1500, 30000), 15, 10, "none"),
         Rnd("one", "Chunk", 4, s(150, 3000), 5, 3, "shipped"),
         Txt("one", s("numbers4", "numbers5"), None1, 1), Txt("one", "names", None1, 1), Txt("one", "comments", None1, 1),
         Txt("one", "unary", None1, 1), Txt("one", s("quoted3", "quoted5"), None1, 1), Txt("one", s("long2", "long3"), None1, 1),
         Txt("one", "placed", None1, 1), Txt("one", "placedlong", None1, 1), Txt("one", "placedblanks", None1, 1), Txt("one", "blanks", None1, 1), Txt("one", "nearmiss", None1, 1) >> \o LongFams("one", None1, None1, T, 1)
     [] p = "C05" -> <<
         Exh("mutant", Stat \cup Files, s(1, 2), {" "}, 0, {}, None1, 1, s(1, 12), 1),
         Exh("mutant", ExprStarts \cup TableStarts, 1, {" "}, 0, {}, None1, s(4, 1), s(4, 3), 1),
         Rnd("mutant", "Chunk", 2, s(2500, 40000), 10, 5, "none"),
         Txt("one", "edges", None1, 1), Txt("one", "soup2", None1, 1), Txt("one", "nearmiss", None1, 1), SoupFam(s(1500, 20000), "none"),
         Txt("cut", "placed", None1, 1), Txt("cut", "placedlong", None1, s(3, 1)) >> \o LongFams("cut", None1, None1, T, 1)
     [] p = "C06" -> <<
         Txt("one", s("quoted3", "quoted5"), Conv, 1), Txt("one", s("quoted4", "quoted5"), Conv, s(1, 1)), Txt("one", "escapes", Conv, 1), Txt("one", "placed", Conv, 1),
         Txt("one", s("long2", "long3"), Conv \cup {AllSafe}, s(3, 1)), Txt("one", s("numbers4", "numbers5"), Conv \cup {AllSafe}, s(2, 1)),
         Rnd("one", "Chunk", 2, s(500, 15000), 10, 5, "safe") >> \o LongFams("one", LongCfgs, {NoCfg}, T, 5)
     [] p = "C07" -> <<
         Exh("again", Stat \cup Files, 2, {" "}, 0, {}, {Shipped}, 1, 1, 1),
         Exh("again", TableStarts \cup ExprStarts, s(1, 2), {" "}, 0, {}, {Shipped, Shipped \o << <<"max_width", "20">> >>, Shipped \o << <<"max_width", "30">> >>}, s(1, 4), 1, 1),
         Rnd("again", "Chunk", 2, s(800, 20000), 0, 0, "shippedwidth"),
         Rnd("again", "Chunk", 3, s(700, 20000), 0, 0, "variant"),
         Rnd("again", "Chunk", 2, s(400, 10000), 8, 6, "variant"),
         Txt("again", "placed", {Shipped, Shipped \o << <<"max_width", "40">> >>}, s(2, 1)), Txt("again", "placedlong", {Shipped, Shipped \o << <<"max_width", "40">> >>}, s(2, 1)) >> \o LongFams("again", {Shipped, Shipped \o << <<"max_width", "40">> >>, Shipped \o << <<"max_width", "24">> >>}, {}, T, 1)
     [] p = "C08" \/ p = "C09" -> <<
         Exh("range", LineStarts, s(1, 2), {" "}, 0, {}, {Shipped, AllSafe, NoCfg}, 1, 1, s(1, 3)),
         Exh("range", LineStarts, 1, {"\n"}, 0, {}, {Shipped}, 1, 1, 1),
         Exh("range", {<<"S">>, <<"S", "\n", "S">>}, 0, {" "}, 2, {"\n\n\n", "\n  \n", "\n\f\n\f",  " \n\t\n--c\n\n", "\n\n--[[\n]]\n\n"}, NewlineCfgs \cup {Tidy, AllSafe}, 1, 1, 1),
         Rnd("range", "Chunk", 2, s(1000, 25000), 30, 6, "rangecfg"),
         Rnd("range", "Chunk", 1, s(1000, 25000), 30, 12, "rangecfg"),
         Txt("range", "placedlines", {Shipped, AllSafe}, s(3, 1)), Txt("range", "placedlong", {Shipped, AllSafe}, s(6, 1)), Txt("range", "placedblanks", {Shipped, AllSafe, NoCfg}, s(6, 1)) >> \o LongFams("range", {Shipped, AllSafe, Plain, NoCfg}, {}, T, 2)
     [] p = "C10" -> <<
         Rnd("one", "Chunk", 2, s(700, 15000), 8, 6, "mixed"),
         Exh("one", Stat \cup Nested, s(2, 3), {" "}, 0, {}, OneOf(Compact, BlockOpts) \cup {Shipped, NoCfg}, s(2, 6), 1, s(20, 24)),
         Rnd("one", "Chunk", 2, s(900, 20000), 8, 3, "blocks"),
         Rnd("one", "Chunk", 3, s(900, 20000), 4, 2, "blocks"),
         Txt("one", "placed", {Shipped, Plain, Compact \o AllOn(BlockOpts), Shipped \o << <<"max_width", "24">> >>}, s(2, 1)), Txt("one", "placedlong", {Shipped, Plain, Compact \o AllOn(BlockOpts), Shipped \o << <<"max_width", "24">> >>}, s(3, 1)) >> \o LongFams("one", LongCfgs, DeepCfgs, T, 2)
     [] p = "C11" -> <<
         Rnd("one", "Tables", 3, s(700, 15000), 5, 3, "mixed"), Rnd("edge", "Tables", 3, s(150, 4000), 3, 2, "mixed"),
         Exh("one", TableStarts, s(2, 3), {" "}, 0, {}, OneOf(Compact, TableOpts) \cup {Shipped}, s(6, 30), 1, s(16, 12)),
         Rnd("one", "Tables", 3, s(1000, 25000), 6, 3, "tables"),
         Rnd("one", "Tables", 4, s(500, 12000), 2, 1, "tables"),
         Txt("one", "longtables", {Shipped, Compact \o << <<"newline_format_table_field", "1">>, <<"write_trailing_field_separator", "true">> >>, NoCfg \o << <<"write_trailing_field_separator", "false">> >>}, s(3, 1)),
         Txt("one", "placedlong", {Shipped, Plain, Compact \o AllOn(BlockOpts), Shipped \o << <<"max_width", "24">> >>, Compact \o AllOn(TableOpts)}, s(3, 1)) >> \o LongFams("one", LongCfgs, DeepCfgs, T, 2)
     [] p = "C12" -> <<
         Rnd("one", "Exprs", 3, s(700, 15000), 5, 4, "mixed"), Rnd("edge", "Exprs", 3, s(250, 6000), 3, 2, "lists"), Rnd("one", "Exprs", 2, s(900, 20000), 4, 3, "lists"),
         Exh("one", ExprStarts, s(2, 2), {" "}, 0, {}, OneOf(Compact, ExprOpts) \cup {Shipped}, s(6, 1), 1, s(20, 8)),
         Rnd("one", "Exprs", 3, s(1000, 25000), 6, 3, "exprs"),
         Rnd("one", "Exprs", 4, s(500, 12000), 2, 1, "exprs"),
         Txt("one", "placed", {Shipped, Plain, Compact \o AllOn(BlockOpts), Shipped \o << <<"max_width", "24">> >>, Compact \o AllOn(ExprOpts)}, s(2, 1)), Txt("one", "placedlong", {Shipped, Plain, Compact \o AllOn(BlockOpts), Shipped \o << <<"max_width", "24">> >>, Compact \o AllOn(ExprOpts)}, s(4, 1)) >> \o LongFams("one", LongCfgs, DeepCfgs, T, 2)
     [] p = "C13" -> <<
         Exh("one", FuncStarts, s(1, 2), {" "}, 0, {}, FuncCfgs, 1, 1, s(1, 2)),
         Exh("one", IfStarts, s(1, 2), {" "}, 0, {}, IfCfgs, 1, 1, s(1, 2)),
         Rnd("one", "Chunk", 2, s(500, 12000), 6, 4, "mixed"),
         Exh("one", TableStarts \cup ExprStarts \cup Nested, 1, {" "}, 0, {},
             {Shipped \o << <<o, "true">>, <<"max_width", w>> >> : o \in {WidthOpts[j] : j \in 1..Len(WidthOpts)}, w \in {"8", "12", "16", "20", "24", "28", "32", "36"}}
             \cup {Shipped \o AllOn(WidthOpts) \o << <<"max_width", w>> >> : w \in {"7", "10", "14", "18", "22", "26", "30", "34", "38"}}, 1, 1, s(16, 2)),
         Exh("one", TableStarts, s(1, 2), {" "}, 0, {},
             {b \o << <<"max_width", ToString(w)>> >> : b \in {Compact, Compact \o << <<"hint_table_constructor", " ">> >>, Shipped \o << <<"newline_format_table_constructor", "0">> >>,
                                                        Compact \o << <<"newline_format_table_field", "1">> >>}, w \in 5..40}, 1, 1, s(16, 8)),
         Exh("edge", TableStarts \cup ExprStarts \cup Nested, s(1, 2), {" "}, 0, {}, {Shipped, Shipped \o AllOn(WidthOpts)}, s(1, 3), 1, s(2, 2)),
         Exh("edge", DeepStarts, s(1, 2), {" "}, 0, {}, {Shipped \o AllOn(WidthOpts) \o << <<"indentation_string", i>> >> : i \in {"\t", " \t", "é→", ""}}, 1, 1, 1),
         Rnd("edge", "Chunk", 2, s(250, 6000), 4, 2, "width"),
         Rnd("edge", "Tables", 3, s(150, 4000), 4, 2, "width"),
         Rnd("edge", "Exprs", 3, s(150, 4000), 4, 2, "width"),
         Rnd("one", "Chunk", 2, s(800, 20000), 5, 3, "width"),
         Rnd("one", "Tables", 3, s(500, 12000), 3, 1, "width"),
         Rnd("one", "Exprs", 3, s(500, 12000), 3, 1, "width"),
         Rnd("one", "Chunk", 2, s(400, 10000), 3, 1, "allon"),
         Txt("one", "placedlong", {Shipped \o AllOn(WidthOpts) \o << <<"max_width", w>> >> : w \in {"10", "14", "18", "22", "26", "30", "36", "42"}}, s(6, 1)), Txt("one", "placed", {Shipped \o AllOn(WidthOpts) \o << <<"max_width", w>> >> : w \in {"10", "14", "18", "22", "26", "30", "36", "42"}}, s(6, 1)),
         Txt("one", "placedwide", {b \o AllOn(WidthOpts) \o << <<"max_width", w>> >> : b \in {Shipped, Plain}, w \in {"7", "9", "11", "13", "15", "17", "20", "24", "28"}}, s(8, 1)) >> \o LongFams("one", LongCfgs \cup {Shipped \o AllOn(WidthOpts) \o << <<"max_width", w>> >> : w \in {"18", "30", "52", "75"}}, {}, T, 3)
     [] p = "C14" -> <<
         Exh("one", Stat \cup ExprStarts, s(2, 2), {"", " "}, 0, {}, {NoCfg} \cup SpacePairs, s(6, 1), 1, s(4, 2)),
         Exh("one", Files \cup TableStarts, 1, {"", " "}, 1, Gaps, {NoCfg} \cup SpacePairs, 1, s(4, 1), s(6, 2)),
         Exh("one", Stat \cup ExprStarts \cup TableStarts, s(1, 2), {"\t", " \t "}, 0, {}, BreakCfgs, 1, 1, s(6, 8)),
         Rnd("spacing", "Chunk", 2, s(800, 15000), 0, 0, "canonical"),
         Rnd("one", "Chunk", 3, s(800, 15000), 10, 4, "spaces"),
         Txt("one", "placed", {NoCfg} \cup SpacePairs, s(2, 1)), Txt("one", "placedlong", SpacePairs, s(3, 1)), Txt("one", "placedlines", SpacePairs \cup BreakCfgs, s(6, 1)) >> \o LongFams("one", SpacePairs \cup {NoCfg, Plain}, {NoCfg}, T, 2)
     [] p = "C15" -> <<
         Exh("one", Files \cup LineStarts, 1, {" ", "\n"}, 1, Gaps, NewlineCfgs, 1, s(10, 1), s(10, 4)),
         Txt("one", "blanks", NewlineCfgs, s(20, 1)), Txt("one", "comments", NewlineCfgs, s(4, 1)), Txt("one", "edges", NewlineCfgs, s(12, 1)),
         Rnd("one", "Chunk", 2, s(1200, 25000), 35, 8, "newlines"),
         Rnd("one", "Chunk", 3, s(600, 12000), 15, 4, "newlines"),
         Txt("one", "placedlines", NewlineCfgs, s(4, 1)), Txt("one", "placedblanks", NewlineCfgs, s(8, 1)) >> \o LongFams("one", NewlineCfgs, {NoCfg}, T, 6)
     [] p = "C16" -> <<
         Rnd("one", "Chunk", 2, s(700, 15000), 10, 20, "mixed"), Rnd("one", "Exprs", 2, s(500, 12000), 6, 20, "mixed"),
         Exh("one", Stat \cup Files, 1, {" "}, 1, CommentGaps, OneOf(Compact, CommentOpts), 1, s(1, 1), s(40, 4)),
         Exh("one", LineStarts \cup ExprStarts, 0, {" "}, 1, CommentGaps, OneOf(Tidy, CommentOpts), 1, 1, s(40, 4)),
         Rnd("one", "Chunk", 2, s(1000, 25000), 12, 25, "comments"),
         Rnd("one", "Chunk", 3, s(400, 10000), 8, 12, "comments"),
         Txt("one", "comments", OneOf(Compact, CommentOpts), s(10, 1)),
         Txt("one", "placedcomments", OneOf(Compact, CommentOpts), s(30, 2)) >> \o LongFams("one", OneOf(Compact, CommentOpts), {NoCfg}, T, 25)
     [] p = "C17" -> <<
         Exh("one", LineStarts \cup Nested, 1, {" "}, 0, {}, OneOf(Compact, AllOpts) \cup {<< <<AllOpts[j], Values(AllOpts[j])[1]>> >> : j \in 1..Len(AllOpts)}, 1, 1, s(60, 3)),
         Rnd("one", "Chunk", 2, s(900, 25000), 12, 8, "history"),
         Rnd("one", "Tables", 3, s(300, 8000), 5, 3, "history"),
         Rnd("one", "Exprs", 3, s(300, 8000), 5, 3, "history") >>
     [] p = "C23" -> <<
         Txt("one", "edges", {NoCfg, Shipped, AllSafe}, 1), Txt("one", "soup2", {NoCfg, Shipped, AllSafe}, s(2, 1)), Txt("one", "blanks", {NoCfg, Shipped, AllSafe, AllOn(AllOpts)}, 1),
         SoupFam(s(3000, 60000), "any"),
         Rnd("cut", "Chunk", 2, s(1200, 25000), 20, 15, "anyrange"),
         Rnd("one", "Chunk", 3, s(1200, 25000), 15, 12, "anyrange") >> \o LongFams("one", LongCfgs, DeepCfgs, T, 2) \o << Txt("one", "verydeep", DeepCfgs, 1), Txt("one", "placedlong", HugeCfgs, s(6, 1)), Txt("one", "placedblanks", {NoCfg, Shipped, AllOn(AllOpts)}, s(4, 1)) >>
     [] p = "C24" -> <<
         Rnd("parts", "S", 2, s(1200, 25000), 0, 0, "shipped"),
         Rnd("parts", "S", 3, s(500, 10000), 0, 0, "shipped"),
         Txt("parts", "statements", {Shipped}, 1) >>
     [] OTHER -> <<>>
=============================================================================
