------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Lua 5.3 as a generator.  Core[A] is the sequence of the productions of  *)
(* nonterminal A, the first one being the default; a symbol that is not in *)
(* the domain of Core is a token.  Extra[A] holds spellings and larger     *)
(* shapes that only random derivations use.  A derivation is a transition  *)
(* system over <<symbols still to expand, tokens so far>>; its deviations  *)
(* (steps that do not take the default) are bounded in exhaustive runs.    *)
(* Every derivation is a valid Lua program (the two restrictions of luafmt *)
(* recorded as known findings, `- -x` and `(` starting a statement that is *)
(* not the first, are left to the family of known findings).               *)
(***************************************************************************)
EXTENDS LuaLex

Core == [
  Chunk |-> << <<"Blk">>, <<"S", "Ret">>, <<"S", "S">>, <<"PS", "Ret">> >>,
  \* a block, empty by default
  Blk |-> << <<>>, <<"S">>, <<"S", "S">>, <<"PS">>, <<"Ret">>, <<"S", "Ret">>, <<";", "PS">>, <<"S", "S", "S">> >>,
  \* a block, one statement by default
  Blk1 |-> << <<"S">>, <<"S", "S">>, <<>>, <<"Ret">>, <<"S", "Ret">>, <<"PS">>, <<"PS", "S">> >>,
  S |-> << <<"f", "(", ")">>,
           <<"Vars", "=", "Es">>,
           <<"local", "Names", "=", "Es">>,
           <<"local", "Names">>,
           <<"do", "Blk1", "end">>,
           <<"while", "E", "do", "Blk1", "end">>,
           <<"repeat", "Blk1", "until", "E">>,
           <<"if", "E", "then", "Blk1", "end">>,
           <<"if", "E", "then", "Blk1", "else", "Blk1", "end">>,
           <<"if", "E", "then", "Blk1", "ElseIfs", "end">>,
           <<"if", "E", "then", "Blk1", "ElseIfs", "else", "Blk1", "end">>,
           <<"for", "N", "=", "E", ",", "E", "do", "Blk1", "end">>,
           <<"for", "N", "=", "E", ",", "E", ",", "E", "do", "Blk1", "end">>,
           <<"for", "Names", "in", "Es", "do", "Blk1", "end">>,
           <<"function", "FName", "Body">>,
           <<"local", "function", "N", "Body">>,
           <<"N", "CallEnd">>,
           <<"N", "Suf", "CallEnd">>,
           <<";">>,
           <<"::", "N", "::">>,
           <<"goto", "N">>,
           <<"break">> >>,
  \* a statement that starts with a bracket
  PS |-> << <<"(", "E", ")", "CallEnd">>, <<"(", "E", ")", "Suf", "CallEnd">>, <<"(", "E", ")", "Idx", "=", "Es">>,
            <<"(", "E", ")", "Idx", ",", "W", "=", "Es">> >>,
  Ret |-> << <<"return">>, <<"return", "Es">>, <<"return", ";">>, <<"return", "Es", ";">> >>,
  ElseIfs |-> << <<"elseif", "E", "then", "Blk1">>, <<"elseif", "E", "then", "Blk1", "ElseIfs">> >>,
  FName |-> << <<"f">>, <<"f", ".", "g">>, <<"f", ":", "m">>, <<"f", ".", "g", ".", "h">>, <<"f", ".", "g", ":", "m">> >>,
  Body |-> << <<"(", "Pars", ")", "Blk1", "end">> >>,
  Pars |-> << <<>>, <<"a">>, <<"a", ",", "b">>, <<"...">>, <<"a", ",", "...">>, <<"a", ",", "b", ",", "c">> >>,
  Vars |-> << <<"V">>, <<"V", ",", "W">>, <<"V", ",", "W", ",", "W">> >>,
  \* a target that does not start the statement
  W |-> << <<"V">>, <<"(", "E", ")", "Idx">>, <<"(", "E", ")", "Suf", "Idx">> >>,
  V |-> << <<"N">>, <<"N", "Idx">>, <<"N", "Suf", "Idx">> >>,
  Suf |-> << <<".", "b">>, <<"[", "E", "]">>, <<":", "m", "Args">>, <<"Args">> >>,
  Idx |-> << <<".", "b">>, <<"[", "E", "]">> >>,
  CallEnd |-> << <<"Args">>, <<":", "m", "Args">> >>,
  Args |-> << <<"(", ")">>, <<"(", "Es", ")">>, <<"Tbl">>, <<"\"s\"">>, <<"'s'">>, <<"[[s]]">> >>,
  E |-> << <<"x">>, <<"1">>, <<"nil">>, <<"true">>, <<"...">>, <<"\"s\"">>, <<"'s'">>, <<"[[s]]">>, <<"[=[s]=]">>,
           <<"Tbl">>, <<"function", "Body">>, <<"N", "Suf">>, <<"N", "Suf", "Suf">>, <<"(", "E", ")">>, <<"(", "E", ")", "Suf">>,
           <<"(", "E", ")", "Suf", "Suf">>, <<"E", "Bin", "E">>, <<"not", "E">>, <<"-", "NM">>, <<"#", "E">>, <<"~", "E">>, <<"false">> >>,
  \* the operand of a minus does not start with another one
  NM |-> << <<"x">>, <<"1">>, <<"not", "E">>, <<"#", "E">>, <<"~", "E">>, <<"(", "E", ")">>, <<"N", "Suf">>, <<"Tbl">> >>,
  Bin |-> << <<"+">>, <<"..">>, <<"and">>, <<"or">>, <<"==">>, <<"-">>, <<"*">>, <<"/">>, <<"//">>, <<"%">>, <<"^">>, <<"<">>, <<">">>,
             <<"<=">>, <<">=">>, <<"~=">>, <<"|">>, <<"~">>, <<"&">>, <<"<<">>, <<">>">> >>,
  Es |-> << <<"E">>, <<"E", ",", "E">>, <<"E", ",", "E", ",", "E">> >>,
  Names |-> << <<"N">>, <<"N", ",", "N">>, <<"N", ",", "N", ",", "N">> >>,
  N |-> << <<"a">> >>,
  Tbl |-> << <<"{", "}">>, <<"{", "Fs", "}">> >>,
  Fs |-> << <<"F">>, <<"F", "Sep">>, <<"F", "Sep", "F">>, <<"F", "Sep", "F", "Sep">>, <<"F", "Sep", "F", "Sep", "F">> >>,
  F |-> << <<"E">>, <<"N", "=", "E">>, <<"[", "E", "]", "=", "E">> >>,
  Sep |-> << <<",">>, <<";">> >>,
  \* for a family that starts from a non-empty table
  Tbl1 |-> << <<"{", "Fs", "}">>, <<"{", "}">> >>,
  \* for families about tables and expressions
  Tables |-> << <<"x", "=", "Tbl1">>, <<"f", "(", "Tbl1", ")">>, <<"local", "a", "=", "{", "Tbl1", "}">>, <<"f", "Tbl1">>, <<"return", "{", "Tbl1", ",", "Tbl1", "}">>,
                <<"do", "x", "=", "{", "k", "=", "Tbl1", ",", "[", "E", "]", "=", "Tbl1", "}", "end">>, <<"return", "x", ",", "Tbl1">>,
                <<"a", ",", "b", "=", "Tbl1", ",", "Tbl1">>, <<"x", "=", "Tbl1", "Bin", "Tbl1">>, <<"x", "=", "{", "F", "Sep", "F", "Sep", "F", "Sep", "F", "}">> >>,
  Exprs |-> << <<"x", "=", "E", "Bin", "E", "Bin", "E">>, <<"f", "(", "Es", ")">>, <<"return", "E", "Bin", "E">>, <<"a", "Suf", "Suf", "Suf", "CallEnd">>,
               <<"local", "a", "=", "Es">>, <<"a", ",", "b", "=", "E", ",", "E">>, <<"if", "E", "Bin", "E", "then", "return", "E", ",", "E", "end">>,
               <<"for", "a", "in", "E", ",", "E", "do", "end">>, <<"(", "E", ")", "Suf", "Suf", "CallEnd">>, <<"do", "x", "=", "E", "Bin", "E", "end">>,
               <<"return", "function", "(", ")", "x", "=", "E", "Bin", "E", "end">>, <<"x", "=", "a", "Suf", "Suf", "Suf", "Suf">>,
               <<"while", "E", "Bin", "E", "do", "f", "(", "E", ",", "E", ")", "end">>, <<"x", "=", "(", "E", ")", "Suf", "Suf">> >>
]
Nonterminals == DOMAIN Core

Extra == [A \in Nonterminals |->
  CASE A = "Chunk" -> << <<"#!/bin/lua\n", "Blk">>, <<"S", "S", "S">>, <<"PS", "S", "S", "S">>, <<"S", "S", "S", "S", "S", "Ret">> >>
    [] A = "Blk1" -> << <<"S", "S", "S", "Ret">> >>
    [] A = "N" -> << <<"b">>, <<"cc">>, <<"x_1">>, <<"longername">>, <<"_ENV">>, <<"ifx">>, <<"a_very_long_name_indeed">>, <<"Z">> >>
    [] A = "E" -> << <<"N">>, <<"N">>, <<"N">>, <<"0x1F">>, <<"12.5e3">>, <<".5">>, <<"\"a longer text\"">>, <<"'c\"h'">>, <<"[[two\nlines]]">>, <<"E", "Bin", "E", "Bin", "E">>, <<"\"é→\"">>,
                     <<"N", "Suf", "Suf", "Suf", "Suf">>, <<"Tbl1">>, <<"{", "E", ",", "E", ",", "E", ",", "E", "}">>,
                     <<"{", "{", "E", "}", ",", "{", "E", ",", "E", "}", "}">>, <<"N", "(", "Es", ")">>, <<"3">>, <<"1e-7">>, <<"0xA">> >>
    [] A = "Suf" -> << <<".", "N">>, <<":", "N", "Args">>, <<".", "N">>, <<":", "N", "(", "Es", ")">> >>
    [] A = "Fs" -> << <<"N", "=", "E", "Sep", "N", "=", "E", "Sep", "N", "=", "E", "Sep">>, <<"E", "Sep", "E", "Sep", "E", "Sep", "E", "Sep", "E">> >>
    [] A = "Es" -> << <<"E", ",", "Es">> >>
    [] OTHER -> <<>>]

IsNT(s) == s \in Nonterminals

(* --- exhaustive derivation: [todo, toks] with the leading tokens shifted --- *)
RECURSIVE Settle(_, _, _)
\* with no deviation left the rest of the derivation is forced
Settle(todo, toks, dev) ==
  IF todo = <<>> THEN [todo |-> <<>>, toks |-> toks]
  ELSE IF ~IsNT(Head(todo)) THEN Settle(Tail(todo), Append(toks, Head(todo)), dev)
  ELSE IF dev = 0 THEN Settle(Core[Head(todo)][1] \o Tail(todo), toks, dev)
  ELSE [todo |-> todo, toks |-> toks]

(* --- pseudo-random numbers: the minimal standard generator, by Schrage's method in 32 bits --- *)
Turn(x) == LET y == 16807 * (x % 127773) - 2836 * (x \div 127773) IN IF y <= 0 THEN y + 2147483647 ELSE y
Seed(n, m) == Turn(Turn(Turn(1 + ((((n * 7919) % 2147483) + (((m % 10000) * 104729) % 2147483) + ((m \div 10000) * 7)) % 2147483))))
Pick(x, n) == 1 + ((x \div 64) % n)      \* 1..n
Chance(x, percent) == Pick(x, 100) <= percent

(* --- random derivation: the stack holds [s |-> symbol, d |-> depth left] --- *)
Flatless(A) == SelectSeq(Core[A] \o Extra[A], LAMBDA p : \A j \in 1..Len(p) : p[j] \notin (Nonterminals \ {"N"}))
Shallow == [A \in Nonterminals |-> IF Flatless(A) = <<>> THEN <<Core[A][1]>> ELSE Flatless(A)]
Wide == [A \in Nonterminals |-> Core[A] \o Extra[A]]

\* one step: shift or expand the symbol on top of the stack
RandomStep(st) ==
  IF st.stack = <<>> THEN st
  ELSE LET h == Head(st.stack)
           ps == IF h.d <= 0 THEN Shallow[h.s] ELSE Wide[h.s]
           p == ps[Pick(st.x, Len(ps))]
           down == IF h.s \in {"S", "E", "Tbl", "F", "NM", "PS", "Tbl1"} THEN h.d - 1 ELSE h.d
       IN IF ~IsNT(h.s) THEN [st EXCEPT !.stack = Tail(@), !.toks = Append(@, h.s)]
          ELSE [x |-> Turn(st.x), toks |-> st.toks, stack |-> [j \in 1..Len(p) |-> [s |-> p[j], d |-> down]] \o Tail(st.stack)]

\* <<>> if the derivation of A gets too long
RandomTokens(A, depth, seed) ==
  LET step(st, j) == RandomStep(st)
      r == FoldLeft(step, [x |-> seed, toks |-> <<>>, stack |-> <<[s |-> A, d |-> depth]>>], [j \in 1..1200 |-> j])
  IN IF r.stack = <<>> THEN r.toks ELSE <<>>

(* --- from tokens to text --- *)
\* may tokens s and t stand next to each other?
Solid == {"\n", "(", ")", ",", ";", "{", "}", "]", "\"", "'"}
Glue(s, t) ==
  LET c == LastChar(s)
      d == FirstChar(t)
      L == Lex(s \o t)
  IN IF c \in Solid \/ d \in Solid THEN TRUE
     ELSE IF c \in AlNum /\ d \in AlNum THEN FALSE
     ELSE L.ok /\ Len(L.T) = 2 /\ L.T[1].s = s /\ L.T[2].s = t

\* tokens ts, gap k filled with g[k]; "" stands for the least that keeps the tokens apart
Source0(ts, g) ==
  LET step(acc, j) == acc \o (IF g[j] = "" /\ j > 1 /\ ~Glue(ts[j - 1], ts[j]) THEN " " ELSE g[j]) \o ts[j]
  IN FoldLeft(step, "", [j \in 1..Len(ts) |-> j]) \o g[Len(ts) + 1]

\* white space and comments that may fill a gap
BlankFill == <<"  ", "\t", "\n", "\n\n", " \n\n\n ", "\r\n", " \n  ", "            ", "                                                                      ",
               "\t\t \t", "\n\t\n", "\n\n\n\n\n", "\r\n\r\n", "\f", "\n\f\n" \o Odd.vt>>
CommentFill == <<"--c\n", " -- c \n", "--[[b]]", " --[==[ b\n b]==] ", "--[[b]]--c\n", "\n--c\n\n  --d\n", "--[[b]] --[[]]", "--[[é→]]", "--\n", "\n--[[b]]\n", " --c\n--[[b]] \n",
                 "--[===[ ]] ]==] b]===]", "--[[a\n\n b]]\n\n--[=[c]=]", "---c--\t\n\n", "--[[]]--[[b]] --[[c]]\n", " --[ c\r\n",
                 "-- a comment that is so long that no line can hold it together with anything else, whatever the width may be\n",
                 "      --[[ far ]]      ", "--c\n--c\n--d\n", "\n\n--c\n\n\n",
                 "--" \o Odd.nbsp \o Odd.vt \o "c" \o Odd.ideo \o "\n", "--[[" \o Odd.nel \o "b " \o Odd.ls \o "]]", "--[[" \o Odd.bom \o "b" \o Odd.nul \o "]]",
                 "--  \n", "--\t\r\n", "--[[ ]]", "--[[\n]]", "--[=[ \n\t]=]", "--[====[b]====]", " --[=====[\n b ]====] ]=====]\n", "--[======[--]]x]======]", "--a\rb\n", "--[[a\r\nb\r]]", "--\\\n", "-- \r \n", "--[[ b]]", "--[[b ]]", "--[[b] ]]", "-- [[c\n", "--[=[ b]= ]=]">>
Fillers == BlankFill \o CommentFill

\* after `-` a comment needs a space in front
SafeFill(ts, j, f) == IF j > 1 /\ f # "" /\ FirstChar(f) = "-" /\ LastChar(ts[j - 1]) = "-" THEN " " \o f ELSE f

\* percent: chance of an unusual gap, cpercent: of a comment
RandomFills(ts, seed, percent, cpercent) ==
  LET step(st, j) ==
        LET x2 == Turn(st.x)
            x3 == Turn(x2)
            f == IF Chance(st.x, cpercent)
                 THEN CommentFill[Pick(x2, Len(CommentFill))] \o (IF Chance(x3, 30) THEN CommentFill[Pick(Turn(x3), Len(CommentFill))] ELSE "")
                 ELSE IF Chance(x3, percent) THEN BlankFill[Pick(x2, Len(BlankFill))]
                 ELSE IF Chance(x2, 40) \/ j = 1 THEN "" ELSE " "
        IN [x |-> Turn(x3), g |-> Append(st.g, SafeFill(ts, j, f))]
  IN FoldLeft(step, [x |-> Turn(seed), g |-> <<>>], [j \in 1..(Len(ts) + 1) |-> j]).g

\* some blanks in some gaps, no line breaks
RandomSpaces(ts, seed) ==
  LET step(st, j) == [x |-> Turn(st.x), g |-> Append(st.g, <<"", " ", "  ", "\t", " \t ", "", "                ">>[Pick(st.x, 7)])]
  IN FoldLeft(step, [x |-> Turn(seed), g |-> <<>>], [j \in 1..(Len(ts) + 1) |-> j]).g

RandomSource(ts, x, percent, cpercent) == Source0(ts, RandomFills(ts, x, percent, cpercent))
=============================================================================
