-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Long and deep Lua sources: constructs with n parts, and n constructs in *)
(* each other.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Many(s, n) == FoldLeft(LAMBDA t, j : t \o s, "", [j \in 1..n |-> j])
\* f(1) sep f(2) .. f(n)
JoinAll(f(_), sep, n) == FoldLeft(LAMBDA t, j : (IF j = 1 THEN "" ELSE t \o sep) \o f(j), "", [j \in 1..n |-> j])
Chains(n) ==
  LET a(j) == "a" \o ToString(j)
      num(j) == ToString(j)
      call(j) == "f" \o ToString(j) \o "(b)"
      op(j) == <<"+", "-", "*", "/", "..", " and ", " or ", "==", "^", "<", "|", "//">>[1 + (j % 12)]
      cycled(f(_)) == FoldLeft(LAMBDA t, j : (IF j = 1 THEN "" ELSE t \o op(j)) \o f(j), "", [j \in 1..n |-> j])
      field(j) == IF j % 3 = 0 THEN a(j) ELSE IF j % 3 = 1 THEN a(j) \o "=" \o num(j) ELSE "[" \o num(j) \o "]=" \o a(j)
      l == JoinAll(a, ",", n)
      elseif(j) == "elseif " \o a(j) \o " then " \o call(j) \o " "
      bare(j) == "elseif " \o a(j) \o " then "
      line(j) == "--c" \o num(j) \o "\n"
      block(j) == "--[[" \o num(j) \o "]]"
  IN {"f(" \o l \o ")", "a.b:m(" \o l \o ")", "x={" \o l \o "}", "f{" \o JoinAll(a, ";", n) \o ";}",
      "x={" \o JoinAll(LAMBDA j : a(j) \o "=" \o num(j), ",", n) \o ",}", "x={" \o JoinAll(field, ";", n) \o "}", "x={" \o JoinAll(LAMBDA j : "{" \o a(j) \o "}", ",", n) \o "}",
      "x={" \o JoinAll(LAMBDA j : a(j) \o "={" \o num(j) \o ",b=" \o a(j) \o "}", ",", n) \o "}",
      "return " \o l, "return " \o l \o ";", "local " \o l, "local " \o l \o "=" \o l, l \o "=" \o l, JoinAll(LAMBDA j : a(j) \o ".b[" \o num(j) \o "]", ",", n) \o "=f()",
      "for " \o l \o " in " \o l \o " do f(" \o l \o ")end", "function f(" \o l \o ")return " \o l \o " end", "local function f(" \o l \o ",...)f(...)end", "x=function(" \o l \o ")end",
      "function " \o JoinAll(a, ".", n) \o "()f()end", "function " \o JoinAll(a, ".", n) \o ":m(x)f(x)end",
      "x=" \o JoinAll(a, ".", n), JoinAll(a, ".", n) \o "()", "x=a" \o JoinAll(LAMBDA j : ":m" \o num(j) \o "(" \o a(j) \o ")", "", n), "a" \o Many(":m{b}", n), "x=f" \o Many("(a)", n), "f" \o Many("()", n),
      "a" \o JoinAll(LAMBDA j : "[" \o num(j) \o "]", "", n) \o "=1", "x=(a)" \o JoinAll(LAMBDA j : ".b" \o num(j), "", n), "x=f'a'" \o Many("[[b]]'c'", n) \o ".d",
      "x=" \o cycled(a), "x=" \o JoinAll(a, "..", n), "x=" \o JoinAll(a, " and ", n), "x=" \o JoinAll(a, "^", n), "f(" \o cycled(call) \o "," \o cycled(a) \o ")", "return " \o JoinAll(a, "+", n) \o "," \o cycled(a),
      "x=" \o Many("not ", n) \o "a", "x=" \o Many("-#~", n) \o "a", "x=" \o Many("not #", n) \o "a.b",
      JoinAll(call, " ", n), JoinAll(call, ";", n) \o ";", Many(";", n) \o "f()", JoinAll(LAMBDA j : a(j) \o "=" \o num(j), "\n", n) \o "\n", "do " \o JoinAll(call, " ", n) \o " return " \o l \o " end",
      "::" \o JoinAll(a, "::::", n) \o "::", JoinAll(LAMBDA j : "local " \o a(j) \o "=" \o num(j), " ", n) \o " return " \o l,
      "if x then f() " \o JoinAll(elseif, "", n) \o "end", "if x then f() " \o JoinAll(elseif, "", n) \o "else g() end", "if x then " \o JoinAll(bare, "", n) \o "else end", "if x then " \o JoinAll(bare, "", n) \o "f() end",
      "if " \o cycled(a) \o " then return " \o l \o " end", "while " \o cycled(a) \o " do " \o JoinAll(call, " ", n) \o " end", "repeat " \o JoinAll(call, ";", n) \o " until " \o cycled(a),
      JoinAll(line, "", n) \o "x=1", "x=1 " \o JoinAll(line, "\n", n), JoinAll(block, "", n) \o "f()", "f(" \o JoinAll(block, " ", n) \o "a)", "x=" \o JoinAll(block, "\n", n) \o "\n1",
      "x={" \o JoinAll(LAMBDA j : line(j) \o a(j), ",", n) \o "}", "x={" \o JoinAll(LAMBDA j : a(j) \o "," \o block(j), "", n) \o "}", "do " \o JoinAll(LAMBDA j : call(j) \o " " \o line(j), "", n) \o "end",
      JoinAll(LAMBDA j : call(j) \o " " \o line(j) \o "\n", "", n), JoinAll(LAMBDA j : line(j) \o call(j) \o block(j) \o "\n\n", "", n), "if a then " \o JoinAll(LAMBDA j : line(j) \o call(j), "\n", n) \o " else " \o JoinAll(line, "", n) \o "end",
      "x=[[" \o JoinAll(a, "\n", n) \o "]]..'" \o JoinAll(a, " ", n) \o "'", "x=[" \o Many("=", n) \o "[a]]b]" \o Many("=", n) \o "]", "--[" \o Many("=", n) \o "[a\nb]" \o Many("=", n) \o "]\nf()",
      "x=1" \o Many("0", n) \o "+0x" \o Many("F", n) \o "-1." \o Many("5", n) \o "e" \o Many("1", n), Many("a", n) \o "=" \o Many("b_", n) \o "." \o Many("c", n),
      "x=" \o Many("\n", n) \o "1" \o Many("\n", n) \o "y=2", "f(" \o Many(" ", n) \o "a" \o Many("\t", n) \o ")" \o Many(" \n", n) \o "g()"}
\* w in n constructs in each other
Nests(n) ==
  LET wrap(pre, open, mid, close) == pre \o Many(open, n) \o mid \o Many(close, n)
  IN {wrap("x=", "(", "a", ")"), wrap("x=", "{", "a", "}"), wrap("x=", "{b=", "a", ",}"), wrap("x=", "{[", "a", "]=1}"), wrap("x=", "a[", "b", "]"), wrap("x=", "a+(", "b", ")"), wrap("x=", "function() return ", "a", " end"),
      wrap("x=", "{1,{", "a", "},2}"), wrap("", "if a then ", "b()", " end"), wrap("", "if a then else ", "b()", " end"), wrap("", "if a then b() elseif c then ", "b()", " else b() end"), wrap("", "while a do ", "b()", " end"),
      wrap("", "do ", "b()", " end"), wrap("", "repeat ", "b()", " until a"), wrap("", "for i in a do ", "b()", " end"), wrap("", "for i=1,2 do ", "b()", " end"), wrap("", "for i=1,2,3 do b() ", "b()", " b() end"),
      wrap("", "local function f() ", "b()", " end"), wrap("", "function a.b:c() ", "return", " end"), wrap("x=", "f(", "a", ")"), wrap("x=", "a:f(", "b", ")"), wrap("", "f(function() ", "b()", " end)"), wrap("x=", "f{", "a", "}"),
      wrap("", "do --c\n", "b()", " end"), wrap("", "do if a then while a do ", "b()", " end end end"), wrap("x=", "{ --[[b]] ", "a", " }"), wrap("x=", "not (", "a", ")"), wrap("x=", "(a)(", "b", ")"), wrap("x=", "a.b[", "c", "].d")}
===============================================================================
