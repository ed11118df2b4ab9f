---------------------------- MODULE LuaSyntax -----------------------------
(***************************************************************************)
(* The Lua grammar luafmt accepts, as a recursive descent parser over the  *)
(* tokens of LuaLex.  Every operator P(T, i) reads one phrase from token i *)
(* on and returns [n |-> syntax tree, i |-> next token], with i = 0 if     *)
(* there is no such phrase.  Nodes carry their first and last token (a, b);*)
(* the gaps inside a node are found from these, as gap k stands before     *)
(* token k.  The grammar is Lua 5.3 with the leniencies of luafmt (any     *)
(* prefix expression may be a statement or an assignment target) and its   *)
(* two restrictions (`- -x`, `(` at the start of a statement).             *)
(***************************************************************************)
EXTENDS LuaLex

K(T, i) == IF i <= Len(T) THEN T[i].k ELSE "eof"

NoNode == [t |-> "none", a |-> 0, b |-> 0]
Fail == [n |-> NoNode, i |-> 0]
Ok(n, i) == [n |-> n, i |-> i]
Tok(i) == [t |-> "tok", a |-> i, b |-> i]

BlockEnd == {"eof", "end", "else", "elseif", "until"}
Unary == {"not", "#", "~", "-"}
Literal == {"nil", "false", "true", "num", "str", "chr", "lstr", "..."}
StringTok == {"str", "chr", "lstr"}

Prec(k) ==
  CASE k = "or" -> 1
    [] k = "and" -> 2
    [] k \in {"<", ">", "<=", ">=", "~=", "=="} -> 3
    [] k = "|" -> 4
    [] k = "~" -> 5
    [] k = "&" -> 6
    [] k \in {"<<", ">>"} -> 7
    [] k = ".." -> 8
    [] k \in {"+", "-"} -> 9
    [] k \in {"*", "/", "//", "%"} -> 10
    [] OTHER -> 0

\* a table that is the only item of its table, or one of several, or no list item at all
MarkChild(it, single) ==
  IF it.n.t = "fseq" /\ it.n.c[1].t = "table"
  THEN [it EXCEPT !.n.c[1].sc = single, !.n.c[1].f.sc = single]
  ELSE it

RECURSIVE PBlock(_, _), PStats(_, _, _, _), PStat(_, _), PParStat(_, _), PNameStat(_, _), PAssign(_, _, _, _, _),
          PIf(_, _), PElseIfs(_, _, _), PFor(_, _), PReturn(_, _), PFuncName(_, _, _), PBody(_, _),
          PNames(_, _, _), PPars(_, _, _), PExps(_, _, _), 
          PExp(_, _, _), PBinLoop(_, _, _, _), PUnary(_, _, _), PPow(_, _, _), PSimple(_, _), PPrefix(_, _),
          PSuffixes(_, _, _), PSuffix(_, _), PArgs(_, _), PTable(_, _), PFields(_, _, _), PField(_, _)

Exp(T, i) == PExp(T, i, 1)

(* --- expressions --- *)

PExp(T, i, min) == LET u == PUnary(T, i, TRUE) IN IF u.i = 0 THEN Fail ELSE PBinLoop(T, u.n, u.i, min)

\* every binary operator is read left-associatively
PBinLoop(T, l, i, min) ==
  LET p == Prec(K(T, i))
  IN IF p < min THEN Ok(l, i)
     ELSE LET r == PExp(T, i + 1, p + 1)
          IN IF r.i = 0 THEN Fail ELSE PBinLoop(T, [t |-> "bin", a |-> l.a, b |-> r.n.b, c |-> <<l, r.n>>], r.i, min)

\* `- -x` is not supported
PUnary(T, i, minus) ==
  LET k == K(T, i)
  IN IF k \in Unary
     THEN IF k = "-" /\ ~minus THEN Fail
          ELSE LET r == PUnary(T, i + 1, k # "-")
               IN IF r.i = 0 THEN Fail ELSE Ok([t |-> IF k = "not" THEN "not" ELSE "un", a |-> i, b |-> r.n.b, c |-> <<r.n>>], r.i)
     ELSE LET s == PSimple(T, i) IN IF s.i = 0 THEN Fail ELSE PPow(T, s.n, s.i)

PPow(T, l, i) ==
  IF K(T, i) # "^" THEN Ok(l, i)
  ELSE IF K(T, i + 1) \in Unary
  THEN LET r == PUnary(T, i + 1, TRUE)
       IN IF r.i = 0 THEN Fail ELSE Ok([t |-> "bin", a |-> l.a, b |-> r.n.b, c |-> <<l, r.n>>], r.i)
  ELSE LET r == PSimple(T, i + 1)
       IN IF r.i = 0 THEN Fail ELSE PPow(T, [t |-> "bin", a |-> l.a, b |-> r.n.b, c |-> <<l, r.n>>], r.i)

PSimple(T, i) ==
  LET k == K(T, i)
  IN CASE k \in Literal -> Ok(Tok(i), i + 1)
       [] k = "function" ->
            LET r == PBody(T, i + 1) IN IF r.i = 0 THEN Fail ELSE Ok([t |-> "fdef", a |-> i, b |-> r.n.b, c |-> <<r.n>>], r.i)
       [] k = "{" -> PTable(T, i)
       [] OTHER -> PPrefix(T, i)

PPrefix(T, i) ==
  CASE K(T, i) = "name" ->
         LET s == PSuffixes(T, i + 1, <<>>)
         IN IF s.i = 0 THEN Fail
            ELSE IF s.n = NoNode THEN Ok(Tok(i), i + 1)
            ELSE Ok([t |-> "var", a |-> i, b |-> s.n.b, c |-> <<Tok(i), s.n>>], s.i)
    [] K(T, i) = "(" ->
         LET e == Exp(T, i + 1)
         IN IF e.i = 0 \/ K(T, e.i) # ")" THEN Fail
            ELSE LET s == PSuffixes(T, e.i + 1, <<>>)
                 IN IF s.i = 0 THEN Fail
                    ELSE IF s.n = NoNode THEN Ok([t |-> "paren", a |-> i, b |-> e.i, c |-> <<e.n>>], e.i + 1)
                    ELSE Ok([t |-> "vrs", a |-> i, b |-> s.n.b, c |-> <<e.n, s.n>>], s.i)
    [] OTHER -> Fail

\* zero or more suffixes; NoNode if there is none
PSuffixes(T, i, acc) ==
  IF K(T, i) \in {"(", "{", "[", ".", ":"} \cup StringTok
  THEN LET s == PSuffix(T, i) IN IF s.i = 0 THEN Fail ELSE PSuffixes(T, s.i, Append(acc, s.n))
  ELSE IF acc = <<>> THEN Ok(NoNode, i)
  ELSE Ok([t |-> "suffs", a |-> acc[1].a, b |-> acc[Len(acc)].b, c |-> acc], i)

PSuffix(T, i) ==
  CASE K(T, i) = "[" ->
         LET e == Exp(T, i + 1)
         IN IF e.i = 0 \/ K(T, e.i) # "]" THEN Fail ELSE Ok([t |-> "index", a |-> i, b |-> e.i, c |-> <<e.n>>], e.i + 1)
    [] K(T, i) = "." ->
         IF K(T, i + 1) # "name" THEN Fail ELSE Ok([t |-> "member", a |-> i, b |-> i + 1], i + 2)
    [] K(T, i) = ":" ->
         IF K(T, i + 1) # "name" THEN Fail
         ELSE LET r == PArgs(T, i + 2)
              IN IF r.i = 0 THEN Fail ELSE Ok([t |-> "method", a |-> i, b |-> r.n.b, c |-> <<r.n>>], r.i)
    [] OTHER -> PArgs(T, i)

PArgs(T, i) ==
  LET k == K(T, i)
  IN CASE k = "(" ->
            IF K(T, i + 1) = ")" THEN Ok([t |-> "args0", a |-> i, b |-> i + 1], i + 2)
            ELSE LET e == PExps(T, i + 1, <<>>)
                 IN IF e.i = 0 \/ K(T, e.i) # ")" THEN Fail ELSE Ok([t |-> "args", a |-> i, b |-> e.i, c |-> <<e.n>>], e.i + 1)
       [] k = "{" -> PTable(T, i)
       [] k \in StringTok -> Ok(Tok(i), i + 1)
       [] OTHER -> Fail

PTable(T, i) ==
  IF K(T, i + 1) = "}" THEN Ok([t |-> "table0", a |-> i, b |-> i + 1], i + 2)
  ELSE LET f == PFields(T, i + 1, <<>>)
       IN IF f.i = 0 \/ K(T, f.i) # "}" THEN Fail
          ELSE Ok([t |-> "table", a |-> i, b |-> f.i, sc |-> TRUE, f |-> f.n], f.i + 1)

FieldsNode(its) ==
  LET last == its[Len(its)]
  IN [t |-> "fields", a |-> its[1].n.a, b |-> IF last.s # 0 THEN last.s ELSE last.n.b,
      sc |-> TRUE, iv |-> \A j \in 1..Len(its) : its[j].n.t = "fseq",
      its |-> [j \in 1..Len(its) |-> MarkChild(its[j], Len(its) = 1)]]

PFields(T, i, acc) ==
  LET f == PField(T, i)
  IN IF f.i = 0 THEN Fail
     ELSE IF K(T, f.i) \in {",", ";"}
     THEN LET acc2 == Append(acc, [n |-> f.n, s |-> f.i])
          IN IF K(T, f.i + 1) = "}" THEN Ok(FieldsNode(acc2), f.i + 1) ELSE PFields(T, f.i + 1, acc2)
     ELSE Ok(FieldsNode(Append(acc, [n |-> f.n, s |-> 0])), f.i)

PField(T, i) ==
  CASE K(T, i) = "[" ->
         LET e == Exp(T, i + 1)
         IN IF e.i = 0 \/ K(T, e.i) # "]" \/ K(T, e.i + 1) # "=" THEN Fail
            ELSE LET v == Exp(T, e.i + 2)
                 IN IF v.i = 0 THEN Fail ELSE Ok([t |-> "fbrack", a |-> i, b |-> v.n.b, c |-> <<e.n, v.n>>], v.i)
    [] K(T, i) = "name" /\ K(T, i + 1) = "=" ->
         LET v == Exp(T, i + 2)
         IN IF v.i = 0 THEN Fail ELSE Ok([t |-> "fname", a |-> i, b |-> v.n.b, c |-> <<v.n>>], v.i)
    [] OTHER ->
         LET v == Exp(T, i) IN IF v.i = 0 THEN Fail ELSE Ok([t |-> "fseq", a |-> i, b |-> v.n.b, c |-> <<v.n>>], v.i)

ListNode(t, its) == [t |-> t, a |-> its[1].n.a, b |-> its[Len(its)].n.b, its |-> its]

PExps(T, i, acc) ==
  LET e == Exp(T, i)
  IN IF e.i = 0 THEN Fail
     ELSE IF K(T, e.i) = "," THEN PExps(T, e.i + 1, Append(acc, [n |-> e.n, s |-> e.i]))
     ELSE Ok(ListNode("explist", Append(acc, [n |-> e.n, s |-> 0])), e.i)

PNames(T, i, acc) ==
  IF K(T, i) # "name" THEN Fail
  ELSE IF K(T, i + 1) = "," THEN PNames(T, i + 2, Append(acc, [n |-> Tok(i), s |-> i + 1]))
  ELSE Ok(ListNode("namelist", Append(acc, [n |-> Tok(i), s |-> 0])), i + 1)

PPars(T, i, acc) ==
  IF K(T, i) \notin {"name", "..."} THEN Fail
  ELSE IF K(T, i + 1) = "," THEN PPars(T, i + 2, Append(acc, [n |-> Tok(i), s |-> i + 1]))
  ELSE Ok(ListNode("parlist", Append(acc, [n |-> Tok(i), s |-> 0])), i + 1)

(* --- statements --- *)

\* a possibly empty block (NoNode) up to, not including, the token that closes it
PBlock(T, i) == PStats(T, i, <<>>, TRUE)

SList(acc) == [t |-> "slist", a |-> acc[1].a, b |-> acc[Len(acc)].b, c |-> acc]

\* `par`: the next statement may start with a bracket
PStats(T, i, acc, par) ==
  LET k == K(T, i)
  IN CASE k \in BlockEnd -> Ok(IF acc = <<>> THEN NoNode ELSE SList(acc), i)
       [] k = "return" ->
            LET r == PReturn(T, i)
            IN IF r.i = 0 THEN Fail
               ELSE IF acc = <<>> THEN r
               ELSE Ok([t |-> "block", a |-> acc[1].a, b |-> r.n.b, c |-> <<SList(acc), r.n>>], r.i)
       [] k = "(" ->
            IF ~par THEN Fail
            ELSE LET s == PParStat(T, i)
                 IN IF s.i = 0 THEN Fail
                    ELSE IF acc = <<>> THEN PStats(T, s.i, <<s.n>>, FALSE)
                    ELSE LET n == Len(acc) IN PStats(T, s.i, [acc EXCEPT ![n] = SList(<<acc[n], s.n>>)], FALSE)
       [] OTHER ->
            LET s == PStat(T, i)
            IN IF s.i = 0 THEN Fail
               ELSE PStats(T, s.i, Append(acc, s.n), ~(s.n.t \in {"var", "assign", "repeat", "localeq"}))

PParStat(T, i) ==
  LET e == PPrefix(T, i)
  IN IF e.i = 0 THEN Fail
     ELSE IF e.n.t = "vrs" /\ K(T, e.i) \in {"=", ","} THEN PAssign(T, e.n, e.i, <<>>, FALSE)
     ELSE e

PNameStat(T, i) ==
  LET e == PPrefix(T, i)
  IN IF e.i = 0 THEN Fail
     ELSE IF K(T, e.i) \in {"=", ","} THEN PAssign(T, e.n, e.i, <<>>, TRUE)
     ELSE IF e.n.t = "tok" THEN Fail ELSE e

\* the rest of an assignment whose first target is n; a single target that starts with a bracket is no list
PAssign(T, n, i, acc, wrap) ==
  IF K(T, i) = ","
  THEN LET v == PPrefix(T, i + 1)
       IN IF v.i = 0 \/ v.n.t = "paren" THEN Fail ELSE PAssign(T, v.n, v.i, Append(acc, [n |-> n, s |-> i]), wrap)
  ELSE IF K(T, i) # "=" THEN Fail
  ELSE LET e == PExps(T, i + 1, <<>>)
           vars == IF acc = <<>> /\ ~wrap THEN n ELSE ListNode("varlist", Append(acc, [n |-> n, s |-> 0]))
       IN IF e.i = 0 THEN Fail ELSE Ok([t |-> "assign", a |-> vars.a, b |-> e.n.b, c |-> <<vars, e.n>>], e.i)

\* a block followed by the closing keyword kw: node and the position of kw
BlockUpTo(T, i, kw) == LET b == PBlock(T, i) IN IF b.i = 0 \/ K(T, b.i) # kw THEN Fail ELSE b

PStat(T, i) ==
  LET k == K(T, i)
  IN CASE k = ";" -> Ok([t |-> ";", a |-> i, b |-> i], i + 1)
       [] k = "break" -> Ok(Tok(i), i + 1)
       [] k = "name" -> PNameStat(T, i)
       [] k = "::" -> IF K(T, i + 1) = "name" /\ K(T, i + 2) = "::" THEN Ok([t |-> "label", a |-> i, b |-> i + 2], i + 3) ELSE Fail
       [] k = "goto" -> IF K(T, i + 1) = "name" THEN Ok([t |-> "goto", a |-> i, b |-> i + 1], i + 2) ELSE Fail
       [] k = "do" ->
            LET b == BlockUpTo(T, i + 1, "end")
            IN IF b.i = 0 THEN Fail ELSE Ok([t |-> "do", a |-> i, b |-> b.i, blk |-> b.n], b.i + 1)
       [] k = "while" ->
            LET e == Exp(T, i + 1)
            IN IF e.i = 0 \/ K(T, e.i) # "do" THEN Fail
               ELSE LET b == BlockUpTo(T, e.i + 1, "end")
                    IN IF b.i = 0 THEN Fail ELSE Ok([t |-> "while", a |-> i, b |-> b.i, e |-> e.n, blk |-> b.n], b.i + 1)
       [] k = "repeat" ->
            LET b == BlockUpTo(T, i + 1, "until")
            IN IF b.i = 0 THEN Fail
               ELSE LET e == Exp(T, b.i + 1)
                    IN IF e.i = 0 THEN Fail ELSE Ok([t |-> "repeat", a |-> i, b |-> e.n.b, e |-> e.n, blk |-> b.n, u |-> b.i], e.i)
       [] k = "if" -> PIf(T, i)
       [] k = "for" -> PFor(T, i)
       [] k = "function" ->
            LET n == PFuncName(T, i + 1, <<>>)
            IN IF n.i = 0 THEN Fail
               ELSE LET f == PBody(T, n.i)
                    IN IF f.i = 0 THEN Fail ELSE Ok([t |-> "fdecl", a |-> i, b |-> f.n.b, c |-> <<n.n, f.n>>], f.i)
       [] k = "local" ->
            IF K(T, i + 1) = "function"
            THEN IF K(T, i + 2) # "name" THEN Fail
                 ELSE LET f == PBody(T, i + 3)
                      IN IF f.i = 0 THEN Fail ELSE Ok([t |-> "lfdecl", a |-> i, b |-> f.n.b, c |-> <<f.n>>], f.i)
            ELSE LET n == PNames(T, i + 1, <<>>)
                 IN IF n.i = 0 THEN Fail
                    ELSE IF K(T, n.i) # "=" THEN Ok([t |-> "local", a |-> i, b |-> n.n.b, c |-> <<n.n>>], n.i)
                    ELSE LET e == PExps(T, n.i + 1, <<>>)
                         IN IF e.i = 0 THEN Fail
                            ELSE Ok([t |-> "localeq", a |-> i, b |-> e.n.b, c |-> <<n.n, e.n>>], e.i)
       [] OTHER -> Fail

PReturn(T, i) ==
  LET semi(n, j) == IF K(T, j) = ";" THEN Ok([t |-> "ret", a |-> i, b |-> j, e |-> n, semi |-> TRUE], j + 1)
                    ELSE Ok([t |-> "ret", a |-> i, b |-> j - 1, e |-> n, semi |-> FALSE], j)
      r == IF K(T, i + 1) \in BlockEnd \cup {";"} THEN semi(NoNode, i + 1)
           ELSE LET e == PExps(T, i + 1, <<>>) IN IF e.i = 0 THEN Fail ELSE semi(e.n, e.i)
  IN IF r.i # 0 /\ K(T, r.i) \in BlockEnd THEN r ELSE Fail

PIf(T, i) ==
  LET e == Exp(T, i + 1)
  IN IF e.i = 0 \/ K(T, e.i) # "then" THEN Fail
     ELSE LET b1 == PBlock(T, e.i + 1)
          IN IF b1.i = 0 THEN Fail
             ELSE LET v == PElseIfs(T, b1.i, <<>>)
                      vec == v.n
                  IN IF v.i = 0 THEN Fail
                     ELSE IF K(T, v.i) = "end"
                     THEN Ok([t |-> "if", a |-> i, b |-> v.i, e |-> e.n, b1 |-> b1.n, v |-> vec, el |-> FALSE, b2 |-> NoNode], v.i + 1)
                     ELSE IF K(T, v.i) # "else" THEN Fail
                     ELSE LET b2 == BlockUpTo(T, v.i + 1, "end")
                          IN IF b2.i = 0 THEN Fail
                             ELSE Ok([t |-> "if", a |-> i, b |-> b2.i, e |-> e.n, b1 |-> b1.n, v |-> vec, el |-> TRUE, b2 |-> b2.n], b2.i + 1)

PElseIfs(T, i, acc) ==
  IF K(T, i) # "elseif" THEN Ok(IF acc = <<>> THEN NoNode ELSE [t |-> "elseifs", a |-> acc[1].a, b |-> acc[Len(acc)].b, c |-> acc], i)
  ELSE LET e == Exp(T, i + 1)
       IN IF e.i = 0 \/ K(T, e.i) # "then" THEN Fail
          ELSE LET b == PBlock(T, e.i + 1)
               IN IF b.i = 0 THEN Fail
                  ELSE PElseIfs(T, b.i, Append(acc, [t |-> "elseif", a |-> i, b |-> b.i - 1, e |-> e.n, blk |-> b.n]))

PFor(T, i) ==
  IF K(T, i + 1) # "name" THEN Fail
  ELSE IF K(T, i + 2) = "="
  THEN LET es == PExps(T, i + 3, <<>>)
       IN IF es.i = 0 \/ Len(es.n.its) \notin {2, 3} \/ K(T, es.i) # "do" THEN Fail
          ELSE LET b == BlockUpTo(T, es.i + 1, "end")
               IN IF b.i = 0 THEN Fail
                  ELSE Ok([t |-> "forint", a |-> i, b |-> b.i, c |-> [j \in 1..Len(es.n.its) |-> es.n.its[j].n], blk |-> b.n], b.i + 1)
  ELSE LET n == PNames(T, i + 1, <<>>)
       IN IF n.i = 0 \/ K(T, n.i) # "in" THEN Fail
          ELSE LET es == PExps(T, n.i + 1, <<>>)
               IN IF es.i = 0 \/ K(T, es.i) # "do" THEN Fail
                  ELSE LET b == BlockUpTo(T, es.i + 1, "end")
                       IN IF b.i = 0 THEN Fail
                          ELSE Ok([t |-> "forin", a |-> i, b |-> b.i, c |-> <<n.n, es.n>>, blk |-> b.n], b.i + 1)

PFuncName(T, i, acc) ==
  IF K(T, i) # "name" THEN Fail
  ELSE IF K(T, i + 1) = "." THEN PFuncName(T, i + 2, Append(acc, [n |-> Tok(i), s |-> i + 1]))
  ELSE LET l == ListNode("fnname", Append(acc, [n |-> Tok(i), s |-> 0]))
       IN IF K(T, i + 1) # ":" THEN Ok(l, i + 1)
          ELSE IF K(T, i + 2) # "name" THEN Fail
          ELSE Ok([t |-> "fnself", a |-> l.a, b |-> i + 2, c |-> <<l>>], i + 3)

PBody(T, i) ==
  IF K(T, i) # "(" THEN Fail
  ELSE LET p == IF K(T, i + 1) = ")" THEN Ok(NoNode, i + 1) ELSE PPars(T, i + 1, <<>>)
       IN IF p.i = 0 \/ K(T, p.i) # ")" THEN Fail
          ELSE LET b == BlockUpTo(T, p.i + 1, "end")
               IN IF b.i = 0 THEN Fail ELSE Ok([t |-> "body", a |-> i, b |-> b.i, p |-> p.n, r |-> p.i, blk |-> b.n], b.i + 1)

(* The chunk: an optional #! line (token 1) and an optional block.  ok: the source is a program. *)
Parse(L) ==
  IF ~L.ok THEN [ok |-> FALSE, sb |-> FALSE, n |-> NoNode]
  ELSE LET sb == K(L.T, 1) = "#!"
           r == PBlock(L.T, IF sb THEN 2 ELSE 1)
       IN [ok |-> r.i = Len(L.T) + 1, sb |-> sb, n |-> r.n]
=============================================================================
