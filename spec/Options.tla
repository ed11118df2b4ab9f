------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* The formatting options of luafmt: their names, kinds and the meaning of *)
(* one assignment.  An option holds a string: None, or the normal form of  *)
(* its last valid assignment.                                              *)
(***************************************************************************)
EXTENDS LuaLex

None == "<none>"

BoolOptions == {
  "replace_zero_spaces_with_hint", "remove_comments", "remove_single_newlines", "remove_all_newlines",
  "remove_spaces_between_tokens", "write_newline_at_eof", "write_newline_at_multiline_table",
  "write_newline_at_explist_multiline_table", "indent_var_suffix", "indent_one_line_var_suffix", "indent_exp_list",
  "indent_one_line_exp_list", "write_trailing_field_separator", "convert_charstring_to_normalstring",
  "force_single_line_binary_op", "force_single_line_table", "force_single_line_iv_table_field",
  "force_single_line_kv_table_field", "force_single_line_if", "force_single_line_top_level_function",
  "force_single_line_scoped_function", "force_single_line_var_suffix", "force_single_line_exp_list"}

TextOptions == {
  "hint_after_multiline_comment", "hint_after_multiline_comment_text", "hint_before_comment",
  "hint_before_multiline_comment_text", "hint_before_oneline_comment_text", "hint_table_constructor",
  "indentation_string", "field_separator"}

NumberOptions == {
  "newline_format_first_oneline_comment", "newline_format_first_multiline_comment", "newline_format_oneline_comment",
  "newline_format_multiline_comment", "newline_format_statement", "newline_format_do_end", "newline_format_for",
  "newline_format_function", "newline_format_if", "newline_format_repeat_until", "newline_format_table_constructor",
  "newline_format_table_field", "newline_format_while", "newline_format_binary_op", "newline_format_var_suffix",
  "newline_format_exp_list", "newline_format_exp_list_first", "max_width"}

FormatOptions == BoolOptions \cup TextOptions \cup NumberOptions
OptionNames == FormatOptions \cup {"line_range"}

(* --- numbers --- *)
MaxNumber == "18446744073709551615"
DigitValue == [d \in Digit |-> CHOOSE v \in 0..9 : ToString(v) = d]

IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digit

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ FirstChar(s) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

RECURSIVE DigitsLE(_, _, _)
DigitsLE(s, t, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET x == DigitValue[SubSeq(s, i, i)] y == DigitValue[SubSeq(t, i, i)]
       IN IF x # y THEN x < y ELSE DigitsLE(s, t, i + 1)

\* a number in normal form that fits 64 bits, or None
Number(s) ==
  IF ~IsDigits(s) THEN None
  ELSE LET z == StripZeros(s)
       IN IF Len(z) < 20 \/ (Len(z) = 20 /\ DigitsLE(z, MaxNumber, 1)) THEN z ELSE None

\* numeric options may carry a plus sign
OptionNumber(s) == IF FirstChar(s) = "+" THEN Number(SubSeq(s, 2, Len(s))) ELSE Number(s)

RECURSIVE IntOf(_, _, _)
IntOf(s, i, acc) == IF i > Len(s) THEN acc ELSE IF i > 9 THEN 1000000000 ELSE IntOf(s, i + 1, acc * 10 + DigitValue[SubSeq(s, i, i)])
ToInt(s) == IntOf(s, 1, 0)

\* the two bounds of a line range "l:r", <<>> if it is none
RangeOf(s) ==
  LET cs == Chars(s)
      j == Find(cs, 1, ":")
      l == Number(SubSeq(s, 1, j - 1))
      r == Number(SubSeq(s, j + 1, Len(s)))
  IN IF j > Len(s) \/ l = None \/ r = None THEN <<>> ELSE <<l, r>>

(* --- assignments --- *)
\* the normal form of value v for option name, None if it is invalid
Normal(name, v) ==
  CASE name \in BoolOptions -> IF v \in {"true", "false"} THEN v ELSE None
    [] name \in NumberOptions -> OptionNumber(v)
    [] name \in TextOptions -> v
    [] name = "line_range" -> LET r == RangeOf(v) IN IF r = <<>> THEN None ELSE r[1] \o ":" \o r[2]
    [] OTHER -> None

NoOptions == [name \in OptionNames |-> None]

\* one assignment: an unknown name or an invalid value changes nothing
SetOption(cfg, name, v) ==
  IF name \in OptionNames /\ Normal(name, v) # None THEN [cfg EXCEPT ![name] = Normal(name, v)] ELSE cfg

RECURSIVE SetAll(_, _, _)
SetAll(cfg, as, i) == IF i > Len(as) THEN cfg ELSE SetAll(SetOption(cfg, as[i][1], as[i][2]), as, i + 1)

\* reported assignments, in order
RECURSIVE Rejected(_, _, _)
Rejected(as, i, acc) ==
  IF i > Len(as) THEN acc
  ELSE Rejected(as, i + 1, IF as[i][1] \notin OptionNames THEN Append(acc, <<"name", as[i][1]>>)
                           ELSE IF Normal(as[i][1], as[i][2]) = None THEN Append(acc, <<"value", as[i][1], as[i][2]>>)
                           ELSE acc)

HasEmptyFormat(cfg) == \A name \in FormatOptions : cfg[name] = None

(* --- the form the layout rules use: native booleans where None and false mean the same --- *)
On(cfg, name) == cfg[name] = "true"
Text(cfg, name) == IF cfg[name] = None THEN "" ELSE cfg[name]
Num(cfg, name) == IF cfg[name] = None THEN 0 - 1 ELSE ToInt(cfg[name])

\* -1: not set
LayoutOptions(cfg) == [
  rz |-> On(cfg, "replace_zero_spaces_with_hint"),
  hac |-> Text(cfg, "hint_after_multiline_comment"),
  hact |-> cfg["hint_after_multiline_comment_text"],
  hbc |-> Text(cfg, "hint_before_comment"),
  hbmt |-> cfg["hint_before_multiline_comment_text"],
  hbot |-> cfg["hint_before_oneline_comment_text"],
  htc |-> Text(cfg, "hint_table_constructor"),
  rc |-> On(cfg, "remove_comments"),
  rsn |-> On(cfg, "remove_single_newlines"),
  ran |-> On(cfg, "remove_all_newlines"),
  rs |-> On(cfg, "remove_spaces_between_tokens"),
  eof |-> On(cfg, "write_newline_at_eof"),
  wmt |-> cfg["write_newline_at_multiline_table"],
  wet |-> cfg["write_newline_at_explist_multiline_table"],
  is |-> Text(cfg, "indentation_string"),
  ivs |-> On(cfg, "indent_var_suffix"),
  iovs |-> On(cfg, "indent_one_line_var_suffix"),
  iel |-> On(cfg, "indent_exp_list"),
  ioel |-> On(cfg, "indent_one_line_exp_list"),
  nfoc |-> Num(cfg, "newline_format_first_oneline_comment"),
  nfmc |-> Num(cfg, "newline_format_first_multiline_comment"),
  noc |-> Num(cfg, "newline_format_oneline_comment"),
  nmc |-> Num(cfg, "newline_format_multiline_comment"),
  nst |-> Num(cfg, "newline_format_statement"),
  ndo |-> Num(cfg, "newline_format_do_end"),
  nfor |-> Num(cfg, "newline_format_for"),
  nfun |-> Num(cfg, "newline_format_function"),
  nif |-> Num(cfg, "newline_format_if"),
  nrep |-> Num(cfg, "newline_format_repeat_until"),
  ntc |-> Num(cfg, "newline_format_table_constructor"),
  ntf |-> Num(cfg, "newline_format_table_field"),
  nwh |-> Num(cfg, "newline_format_while"),
  nbo |-> Num(cfg, "newline_format_binary_op"),
  nvs |-> Num(cfg, "newline_format_var_suffix"),
  nel |-> Num(cfg, "newline_format_exp_list"),
  nelf |-> Num(cfg, "newline_format_exp_list_first"),
  fs |-> cfg["field_separator"],
  wts |-> cfg["write_trailing_field_separator"],
  conv |-> On(cfg, "convert_charstring_to_normalstring"),
  mw |-> Num(cfg, "max_width"),
  fbo |-> On(cfg, "force_single_line_binary_op"),
  ft |-> On(cfg, "force_single_line_table"),
  fiv |-> On(cfg, "force_single_line_iv_table_field"),
  fkv |-> On(cfg, "force_single_line_kv_table_field"),
  fif |-> On(cfg, "force_single_line_if"),
  ftf |-> On(cfg, "force_single_line_top_level_function"),
  fsf |-> On(cfg, "force_single_line_scoped_function"),
  fvs |-> On(cfg, "force_single_line_var_suffix"),
  fel |-> On(cfg, "force_single_line_exp_list")]
=============================================================================
