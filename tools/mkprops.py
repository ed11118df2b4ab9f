#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the list of properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
API = ["formatter::process_buffer_with_config (library)", "luafmt binary, stdin -> stdout"]
AST, LEX, LAL = "src/parser/lua_ast.rs", "src/parser/lua_lexer.rs", "src/parser/lua_syntax.lalrpop"
CAST, CLEX, UTIL = "src/parser/comment_ast.rs", "src/parser/comment_lexer.rs", "src/parser/lexer_util.rs"
LIST, DECO, HINT, FUTIL, REC = ["src/formatting/%s.rs" % x for x in ("list", "decoration", "loc_hint", "util", "reconstruction")]
CFG, MAIN, FMT, FU = "src/config.rs", "src/main.rs", "src/formatter.rs", "src/file_util.rs"

p("C01", "Formatting preserves the program: same tokens, same order",
  "For every source luafmt accepts and every configuration that does not leave tokens glued together (whenever spaces, newlines or comments are removed, `replace_zero_spaces_with_hint=true` and non-empty comment hints are set), the Lua tokens of the output are exactly the tokens of the input in the same order. The only permitted differences are table field separators replaced by `field_separator`, a trailing table separator added or dropped, and the quotes (with the needed escapes) of strings converted by `convert_charstring_to_normalstring`. No keyword, name, operator, bracket, literal or suffix is lost, duplicated, reordered, merged or split.",
  ["inputs", "configurations"], "every accepted source text x every safe configuration (about 45 options), also with a line range",
  "The tests compare about 60 fixed snippets with fixed outputs; there is one writer per syntax node, so tokens can be lost in any node x option combination the tests do not contain.",
  [AST, LAL, LIST, HINT, REC], [("one writer per node re-emits each terminal", AST), ("separated lists", LIST)], API)
p("C02", "Comments survive: every comment kept, in place, with its text",
  "For every accepted source and every configuration without `remove_comments=true`, each comment of the input appears in the output exactly once, between the same two tokens and in the same order, as the same kind and long-bracket level of comment and with the same text except for the white space at the ends of the text that the comment text hints normalise. With `remove_comments=true` all comments, and nothing but comments and white space, disappear.",
  ["inputs", "configurations"], "every accepted source with comments in any gap between tokens x every safe configuration",
  "Comments may stand in any of the gaps of every construct; tests place comments in a few of them under a few configurations.",
  [CAST, CLEX, HINT, AST], [("gaps are re-parsed by the comment grammar", HINT), ("every gap of every node is written once", AST)], API)
p("C03", "Without options formatting is the identity",
  "With no option set, the output is byte for byte the input, for every accepted source. The only exception: a line comment or `#!` line that ends the file without a line break is given one.",
  ["inputs"], "every accepted source, with any white space, comments and blank lines in any gap",
  "Needs every gap of every node to be re-emitted from the right source range; a wrong, swapped or doubled range shows only when that very gap is non-empty and distinctive.",
  [AST, LAL, HINT, "src/parser/common.rs"], [("Loc ranges of gaps recorded by the grammar", LAL), ("char to byte index map", REC)], API)
p("C04", "Every valid Lua 5.3 program is accepted",
  "Every syntactically valid Lua 5.3 source is parsed and formatted: all statements, operators with unary operators nested in any way, literals of every lexical form, comments anywhere, `#!` first line, optional semicolons. (Deviations on the unchanged tree are recorded as known findings.)",
  ["programs"], "all derivations of the Lua 5.3 grammar with all lexical forms of names, numerals, strings and comments",
  "Tests parse a fixed list of snippets; acceptance is a statement about all derivations of a recursive grammar and all spellings of its terminals.",
  [LAL, LEX, UTIL], [("LALR grammar", LAL), ("hand written lexer", LEX)], API)
p("C05", "Broken source is refused and nothing is written",
  "If a source is not a Lua program (a token missing, added or out of place, an unfinished string, comment, bracket or block), formatting ends with an error: nothing is output for it, and with `-i` its file is left byte for byte as it was. luafmt knowingly accepts a little more than Lua and this stays accepted: any suffixed expression as a statement or assignment target (`a.b`, `(a)`, `f() = 1`), misspelt numerals such as `1..2` or `0x`, and a line break inside a quoted string.",
  ["inputs"], "all one-token deletions, insertions, duplications and swaps, and all truncations, of grammar derivations that leave the language accepted by luafmt",
  "Only a handful of malformed snippets are tested.",
  [LAL, LEX, FMT, MAIN], [("parse before write; errors are returned", FMT)], API)
p("C06", "Literals keep their value; quote conversion is faithful",
  "Numbers, long strings and quoted strings are output with exactly the characters they had, except that with `convert_charstring_to_normalstring=true` a single-quoted string becomes a double-quoted string that denotes the same byte sequence (all escape sequences considered). Strings and long strings are never trimmed, re-indented or re-escaped otherwise.",
  ["inputs", "configurations"], "all literals: every escape sequence, quotes after any number of backslashes, line breaks, brackets at every level, all numeral forms, non-ASCII text",
  "Escaping bugs need specific combinations of quotes and backslashes; the tests contain four.",
  [FUTIL, LEX, UTIL, AST], [("charstring_to_normalstring", FUTIL), ("string and long bracket lexing", UTIL)], API)
p("C07", "Formatting is idempotent under the shipped configuration",
  "Under the shipped `.luafmt.lua` and its variants in which only the width, the indentation string or a newline format is changed, formatting an already formatted file changes nothing: format(format(x)) = format(x). Sources with comments or blank lines inside an expression or table, and widths too narrow for a single item, are outside the domain: there a first run may leave line breaks that a second run folds.",
  ["inputs", "configurations"], "accepted sources (in the stated domain) x the shipped configuration and its variants",
  "No test formats its own output a second time.",
  [AST, LIST, DECO, HINT, CAST], [("layout decided from tokens and comments, not from previous line breaks", AST)], API)
p("C08", "line_range: everything outside the range is untouched",
  "With `line_range=A:B` every top-level statement that does not touch lines A..B, and all white space and comments between two such statements, before the first and after the last of them, are output byte for byte as they were, unless lines of A..B lie in between. An invalid or out-of-bounds range bound selects from the first or up to the last line.",
  ["inputs", "configurations"], "all sources x all ranges (also inverted, zero and out of bounds) x configurations",
  "Tests use a few ranges on a few snippets; the range arithmetic mixes character and byte positions, statement spans and gap positions.",
  [FUTIL, REC, AST, HINT], [("line_range_to_pos_range", FUTIL), ("update_pos_range", REC), ("out_of_range_write", FUTIL)], API)
p("C09", "line_range: selected statements are formatted as in a full run",
  "With `line_range=A:B` every top-level statement (including `return` and statements after a `;`) that touches lines A..B is formatted completely, and exactly as it is when the whole file is formatted.",
  ["inputs", "configurations"], "all sources x all ranges x configurations",
  "Same as C08: needs multi-line statements cut by the range in every node type.",
  [FUTIL, REC, AST], [("the range grows to whole top-level statements", REC)], API)
p("C10", "Blocks: line breaks and indentation follow the block options",
  "With `newline_format_{statement,do_end,while,for,if,repeat_until,function}` set to 1, each statement starts on its own line, each body that is not empty starts on a new line and its closing keyword (`end`, `else`, `elseif`, `until`) stands on its own line; every line of a body is indented by `indentation_string` once more than its enclosing block. A construct whose option is not set gets no new line breaks, and no option affects other constructs.",
  ["programs", "configurations"], "all nestings of the block constructs (with empty and non-empty bodies, `else`/`elseif` chains) x settings of the options",
  "There are 40 separately written layouts (each `if` form, each `for` form, ...), each for several options; tests cover a fraction.",
  [AST, DECO, LIST], [("IncIndent/DecIndent/IfNewLine sequences", AST), ("stack_indent", DECO)], API)
p("C11", "Tables: one layout, separators and trailing separators as configured",
  "Table constructors are laid out as `newline_format_table_constructor`, `newline_format_table_field`, `write_newline_at_multiline_table`, `hint_table_constructor` and the `force_single_line_*table*` options say; every field separator becomes `field_separator` if that is set, and the last field carries a separator exactly as `write_trailing_field_separator` says (never in tables kept on one line by `force_single_line_table`). Nested tables, records and arrays each follow their own rule.",
  ["programs", "configurations"], "all tables with up to a few fields of every kind, nested, with or without comments and trailing separators x table options",
  "The rules interact (array/record, single child, one-line, width); the tests contain a few of the combinations.",
  [AST, LIST, REC], [("TableConstructor and Fields writers", AST), ("is_iv_table/is_single_child marks", REC)], API)
p("C12", "Expressions: operators, call chains and lists break and indent as set",
  "Line breaks before (1) or after (2) binary operators, before `.name`/`:method()` suffixes and between list items appear exactly where `newline_format_binary_op`, `newline_format_var_suffix`, `newline_format_exp_list`, `newline_format_exp_list_first` and `write_newline_at_explist_multiline_table` ask for them, and continuation lines are indented once, as the `indent_*` options say, however the operators nest.",
  ["programs", "configurations"], "all expression shapes x the expression layout options",
  "Indentation of nested operators and suffix chains depends on the whole enclosing expression; tests sample it.",
  [AST, LIST, DECO], [("BinaryOp, VarSuffixList, ExpList writers, test_indent", AST)], API)
p("C13", "Width: single-line folding happens exactly when it fits max_width",
  "With a `force_single_line_*` option and `max_width` set, a table, `if`, function body, operator, suffix or list item is kept on one line exactly when that line stays shorter than `max_width` (characters, not bytes, counted from the start of the line), and otherwise gets its multi-line layout; a construct is never folded into a line that reaches `max_width`, nor when a comment or literal inside forces a line break.",
  ["inputs", "configurations"], "all foldable constructs x all widths around the length at which the decision flips, at every indentation depth, with ASCII and non-ASCII text",
  "The threshold must hold at every width and column; tests use a handful of widths.",
  [AST, FUTIL], [("test_oneline", FUTIL), ("test_oneline_if/_function/_table_cfg", AST)], API)
p("C14", "Spacing: one canonical spacing, the same for every construct",
  "With `remove_spaces_between_tokens=true` and `replace_zero_spaces_with_hint=true`, spaces between two tokens on one line depend only on the tokens and their construct (one space around binary operators, `=` and keywords, after commas; none inside brackets, before commas, around `.`, `:` and `::`; `hint_table_constructor` inside braces) and never on the spaces in the input. With only one of the two, or neither, set, existing spaces and comments stay as they are except for what that option names.",
  ["inputs", "configurations"], "all constructs x all input spacings x the spacing options",
  "Spacing is decided separately at each of some 200 gap positions.",
  [AST, HINT, LIST], [("hints of the gaps", AST), ("SpaceLocHint/CommentLocHint", HINT)], API)
p("C15", "Newlines: blank lines and the end of file are handled as configured",
  "`remove_single_newlines` removes exactly the single line breaks between tokens (not blank lines, not the ends of line comments), `remove_all_newlines` removes all line breaks outside comments and literals, and without them existing line breaks stay. With `write_newline_at_eof=true` every output ends with a line break and trailing spaces are dropped.",
  ["inputs", "configurations"], "all placements and counts of line breaks, with and without comments, in any gap x newline options",
  "The interaction of line breaks with comments and with forced line breaks is decided gap by gap.",
  [CAST, DECO, HINT, AST], [("VariantList/NewLineList writers", CAST), ("IfNewLine", DECO)], API)
p("C16", "Comment layout follows the comment options",
  "`hint_before_comment`, `hint_after_multiline_comment`, the three comment text hints and `newline_format_[first_]{oneline,multiline}_comment` put exactly the asked-for text or line break before, after and inside comments, in every position a comment can have, and a comment moved to a new line is indented as the code around it.",
  ["inputs", "configurations"], "all sequences of line comments, block comments and line breaks in any gap x comment options",
  "Tests cover some sequences at some positions.",
  [CAST, HINT, LIST, DECO], [("comment writers", CAST)], API)
p("C17", "Setting an option changes that option and nothing else",
  "After any sequence of option assignments, each option has the value of the last valid assignment to it; an assignment with an unknown name or an invalid value changes nothing and is reported. All documented options can be set, under the same names from the command line and from a config file, and are shown by the verbose listing.",
  ["histories"], "all sequences of assignments of valid, invalid and unknown names and values",
  "Tests set a few options once; 45 near-identical lines map names to fields, one copy/paste slip breaks one of them silently.",
  [CFG, MAIN], [("Config::set", CFG), ("Display for Config", CFG)], ["Config fields (library)", "luafmt -v"])
p("C18", "A config file means its top-level assignments, in order",
  "Loading a config file has the effect of its top-level `name = value` assignments (of a name and a boolean, number or quoted string, whose text is taken as it stands between the quotes; of several names or values the first ones count; with or without semicolons, comments or a `#!` line) in order on top of the configuration given; every other statement in it is ignored. A config file that cannot be read or parsed is an error for the files that use it, never a crash and never a silent use of defaults.",
  ["inputs", "histories"], "all config files made of assignments and other statements",
  "Tests load one file.",
  [CFG, FMT], [("load_options_from_config", CFG), ("reload_format_from_file", CFG)], ["Config::reload_format_from_file", "luafmt binary"])
p("C19", "The nearest config file governs; command line options replace it",
  "Without format options on the command line each file is formatted with the `.luafmt*.lua` file of the nearest directory at or above the file (resolved through symbolic links), independently for every file; with any format option on the command line no config file is used; `line_range` alone does not count as a format option. A file without any config file is reported and not changed.",
  ["configurations", "inputs"], "directory trees with config files at every subset of levels x command lines",
  "Tests check one directory of the repository.",
  [FU, FMT, MAIN], [("get_file_config", FU), ("has_empty_format", CFG)], ["luafmt binary in scratch directories"])
p("C20", "The right files are processed: extension, recursion, config files",
  "A file argument is processed whatever its name; a directory argument stands for the `.lua` files directly in it, with `-r` also for those in all its subdirectories; files whose names start with `.luafmt` are skipped in directories. Symbolic links to files and directories are followed; nothing is searched endlessly. A path that does not exist, or a directory that cannot be listed, is reported and the remaining paths are still processed, in sorted order of the arguments.",
  ["inputs", "configurations"], "directory trees x argument lists x -r",
  "Tests check one tree.",
  [FU, MAIN], [("get_path_files", FU)], ["luafmt binary in scratch directories", "file_util::get_path_files"])
p("C21", "In-place runs write exactly the formatted text, file by file",
  "With `-i` each processed file ends up with exactly the text that the run without `-i` prints for it, and nothing is printed; without `-i` no file changes. A file that cannot be read, parsed or configured keeps its content, is reported with its path, and does not keep the other files from being processed; no other file is created, changed or removed.",
  ["histories", "fault_sequences"], "sets of files of which any subset is broken, unreadable, not UTF-8 or unconfigured x -i",
  "Tests never run the binary.",
  [MAIN, FMT], [("process_file_path", MAIN)], ["luafmt binary in scratch directories"])
p("C22", "Command line: options are recognised wherever they stand",
  "Arguments starting with `-` are options wherever they stand: `-i`/`--inplace`, `-r`/`--recursive`, `-v`/`--verbose` and `--name=value`; anything else is reported and ignored without stopping the run. Names and values are taken as they stand, whatever characters they contain. Without path arguments standard input is formatted to standard output with the command line options; errors go to standard error only.",
  ["inputs"], "argument lists in every order",
  "Tests call the option parser on five lists.",
  [MAIN], [("parse_options", MAIN)], ["luafmt binary"])
p("C23", "No input makes luafmt crash or hang",
  "For every text (valid, broken, truncated, with any Unicode characters; nested no deeper than the 200 levels Lua itself allows) and every configuration and line range, luafmt terminates with a result or an error; it never panics, overflows or loops.",
  ["inputs", "configurations"], "all short strings over the characters that drive the lexers; truncations and mutations of programs, non-ASCII text, all ranges",
  "Index arithmetic on characters and bytes is exercised by tests on a few inputs only.",
  [LEX, CLEX, UTIL, REC, FUTIL, "src/parser/common.rs"], [("char positions to byte positions", REC)], API)
p("C24", "Statements are formatted independently of their neighbours",
  "Under the shipped configuration the layout of a top-level statement depends only on that statement: formatting a file of statements on separate lines gives the concatenation of what each statement gives on its own, and a statement inside a block is laid out as at top level with the block's indentation added, whenever no line comes near `max_width`.",
  ["programs"], "all sequences and nestings of statements",
  "Leaked state (indent level, function level, per-table marks) shows only on what follows the statement that leaked it.",
  [AST, DECO, CFG], [("balanced IncIndent/DecIndent, IncFuncLevel/DecFuncLevel", AST)], API,
  [dict(name="indent_level, stack_indent, function_nested_level", meaning="writer state, must return to its value after each node", where=CFG)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
