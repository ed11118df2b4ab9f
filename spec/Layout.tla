------------------------------ MODULE Layout -------------------------------
(***************************************************************************)
(* The writer of luafmt as a transducer.  Its state (Out) is the text      *)
(* written so far, the indentation level with the stack of operator        *)
(* indents, the function nesting level and what has been decided about     *)
(* tables; its transitions are the instructions                            *)
(*    <<"T", i>>              write token i                                *)
(*    <<"S", text, i>>        write a list separator (token i, 0 if none)  *)
(*    <<"G", i, hint, tag>>   write gap i                                  *)
(*    <<"N", c, i, hint, tag>> start a new line at gap i if c, else "G"    *)
(*    <<"E", tag>>            start a new line where there is no gap       *)
(*    <<"+", tag>> <<"-">>    indent / end of indent                       *)
(*    <<"F", d>>              enter (1) / leave (-1) a function or table   *)
(*    <<"W", node>>           write a syntax tree                          *)
(* The text is a sequence of pieces <<text, kind, tag, index>>: tokens     *)
(* ("t"), separators ("s"), gaps ("g") and verbatim text ("r"), so that a  *)
(* difference from an observed output can be laid to a construct.          *)
(* X is the source being formatted: X.L its tokens and gaps, X.s its text, *)
(* X.rng whether a line range [X.l, X.r) is selected.                      *)
(***************************************************************************)
EXTENDS LuaSyntax, Options

Out0 == [ps |-> <<>>, n |-> 0, col |-> 0, hl |-> 0, nl |-> FALSE, last |-> "", ind |-> 0, stk |-> <<>>, fl |-> 0,
         one |-> {}, hi |-> {}]

Fresh(o) == [o EXCEPT !.ps = <<>>, !.n = 0, !.col = 0, !.hl = 0, !.nl = FALSE, !.last = ""]

\* what a lookahead has decided about tables stays decided
Keep(o, p) == [o EXCEPT !.one = p.one, !.hi = p.hi]

Emit(o, text, m, piece) ==
  [o EXCEPT !.ps = Append(@, piece),
            !.n = @ + Len(text),
            !.col = IF m.nl THEN m.tail ELSE @ + m.tail,
            !.hl = IF o.nl THEN @ ELSE @ + m.head,
            !.nl = @ \/ m.nl,
            !.last = IF text = "" THEN @ ELSE LastChar(text)]

MeasGap(s) == IF s = "" \/ s = " " THEN Flat(s) ELSE Meas(s)

\* everything another buffer holds
EmitAll(o, p) ==
  [o EXCEPT !.ps = @ \o p.ps,
            !.n = @ + p.n,
            !.col = IF p.nl THEN p.col ELSE @ + p.col,
            !.hl = IF o.nl THEN @ ELSE @ + p.hl,
            !.nl = @ \/ p.nl,
            !.last = IF p.n = 0 THEN @ ELSE p.last,
            !.one = p.one, !.hi = p.hi]

\* the character before the last one, when the last one is taken away
RECURSIVE LastOfPieces(_, _)
LastOfPieces(ps, j) == IF j = 0 THEN "" ELSE IF ps[j][1] # "" THEN LastChar(ps[j][1]) ELSE LastOfPieces(ps, j - 1)

RECURSIVE PopPiece(_, _)
PopPiece(ps, j) ==
  IF ps[j][1] = "" THEN PopPiece(ps, j - 1)
  ELSE [ps EXCEPT ![j][1] = SubSeq(@, 1, Len(@) - 1)]

PopBlank(o) ==
  IF o.n > 1 /\ o.last \in {" ", "\t"}
  THEN LET ps == PopPiece(o.ps, Len(o.ps))
       IN [o EXCEPT !.ps = ps, !.n = @ - 1, !.col = @ - 1, !.hl = IF o.nl THEN @ ELSE @ - 1, !.last = LastOfPieces(ps, Len(ps))]
  ELSE o

RECURSIVE Times(_, _)
Times(s, k) == IF k <= 0 THEN "" ELSE s \o Times(s, k - 1)
Indent(o, c) == Times(c.is, o.ind)

(* --- line range --- *)
\* [a, b) are 1-based character positions, the range is 0-based
OutOfRange(X, a, b) == X.rng /\ (b - 1 <= X.l \/ a - 1 >= X.r)
NotContained(X, a, b) == X.rng /\ ((a - 1 < X.l /\ b - 1 > X.l) \/ (a - 1 < X.r /\ b - 1 > X.r))

GapA(X, i) == IF i = 1 THEN 1 ELSE X.L.T[i - 1].b
GapB(X, i) == IF i <= Len(X.L.T) THEN X.L.T[i].a ELSE Len(X.s) + 1
RawGap(X, i) == SubSeq(X.s, GapA(X, i), GapB(X, i) - 1)
SpanA(X, n) == X.L.T[n.a].a
SpanB(X, n) == X.L.T[n.b].b
\* characters in the tokens of n; X.pl[i]: in the tokens before token i
TokenChars(X, n) == X.pl[n.b + 1] - X.pl[n.a]
\* worth trying on one line: not clearly too long (writing it may drop a separator, so half of its tokens' text)
MayFit(X, n, c) == TokenChars(X, n) < 2 * c.mw

(* --- comments --- *)
WhiteSpace == {" ", "\t", "\n", "\r", "\f", Odd.vt, Odd.nel, Odd.nbsp, Odd.ideo, Odd.ls}
RECURSIVE TrimStart(_)
TrimStart(s) == IF s # "" /\ FirstChar(s) \in WhiteSpace THEN TrimStart(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # "" /\ LastChar(s) \in WhiteSpace THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimBlanks(_)
TrimBlanks(s) == IF s # "" /\ LastChar(s) \in {" ", "\t"} THEN TrimBlanks(SubSeq(s, 1, Len(s) - 1)) ELSE s

HasEnd(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e

CommentText(it, c) ==
  IF it.k = "line"
  THEN IF c.rc THEN IF c.ran THEN "" ELSE "\n"
       ELSE IF c.hbot = None THEN "--" \o it.x \o "\n"
       ELSE LET x == TrimStart(it.x)
                y == c.hbot \o x
            IN IF x = "" THEN "--\n"
               \* it stays a line comment
               ELSE IF LongOpen(Chars(y), 1).lv # NoLevel THEN "-- " \o y \o "\n"
               ELSE "--" \o y \o "\n"
  ELSE IF c.rc THEN ""
  ELSE LET lv == Times("=", it.lv)
           x1 == IF c.hbmt = None THEN it.x ELSE TrimStart(it.x)
           x2 == IF c.hact = None THEN x1 ELSE TrimEnd(x1)
           x3 == IF c.hact = None THEN x2 ELSE x2 \o c.hact
           \* it is closed where it ends
           x4 == IF c.hact # None /\ HasEnd(x3, "]" \o lv) THEN x3 \o " " ELSE x3
       IN "--[" \o lv \o "[" \o (IF c.hbmt = None THEN "" ELSE c.hbmt) \o x4 \o "]" \o lv \o "]"

\* a new line in the text s of a comment block (its first character is what stands before the block), after blanks sp
NewLineIn(s, sp, o, c) ==
  LET t == TrimBlanks(sp)
      s1 == IF t # "" THEN s \o t
            ELSE IF Len(s) > 1 /\ LastChar(s) \in {" ", "\t"} THEN SubSeq(s, 1, Len(s) - 1) ELSE s
  IN (IF LastChar(s1) = "\n" THEN s1 ELSE s1 \o "\n") \o Indent(o, c)

IsComment(it) == it.k # "nl"

\* items j.. of the comment block of gap i, appended to s; the previous item ends at position p
RECURSIVE CommentItems(_, _, _, _, _, _, _, _)
CommentItems(X, its, j, p, s, o, c, ga) ==
  LET \* positions in the block are compared with the range moved to the start of the block
      off == ga - 1
      l == IF X.rng THEN (IF X.l > off THEN X.l - off ELSE 0) ELSE 0
      r == IF X.rng THEN (IF X.r > off THEN X.r - off ELSE 0) ELSE 0
      out(a, b) == X.rng /\ (b - ga <= l \/ a - ga >= r)
      raw(a, b) == SubSeq(X.s, a, b - 1)
      blanks(a, b, hint) == IF out(a, b) THEN raw(a, b) ELSE IF c.rs THEN hint ELSE raw(a, b)
      it == its[j]
      prev == its[j - 1]
      first == IF it.k = "line" THEN c.nfoc = 1 ELSE IF it.k = "block" THEN c.nfmc = 1 ELSE FALSE
      later == IF it.k = "line" THEN c.noc = 1 ELSE IF it.k = "block" THEN c.nmc = 1 ELSE FALSE
      inList == j > 1 /\ IsComment(it) /\ IsComment(prev)
      before == IF j = 1
                THEN LET s1 == s \o blanks(p, it.a, "")
                     IN IF first /\ ~out(its[1].a, its[Len(its)].b) THEN NewLineIn(s1, "", o, c) ELSE s1
                ELSE IF out(p, it.a) THEN s \o raw(p, it.a)
                ELSE IF later THEN NewLineIn(s, blanks(p, it.a, ""), o, c)
                ELSE s \o blanks(p, it.a, IF inList THEN c.hbc ELSE "")
      text == IF out(it.a, it.b) THEN raw(it.a, it.b)
              ELSE IF it.k = "nl" THEN IF c.ran \/ (c.rsn /\ Len(its) = 1) THEN "" ELSE "\n"
              ELSE CommentText(it, c)
  IN IF j > Len(its) THEN s \o blanks(p, GapB(X, X.gi), "")
     ELSE CommentItems(X, its, j + 1, it.b, before \o text, o, c, ga)

\* the text of gap i, which follows the character `before`; X.gi is set for CommentItems
GapText(X, i, before, hint, o, c) ==
  LET its == X.L.G[i]
      a == GapA(X, i)
      t == IF its = <<>> THEN IF c.rs THEN "" ELSE RawGap(X, i)
           ELSE LET s == CommentItems([X EXCEPT !.gi = i], its, 1, a, before, o, c, a) IN SubSeq(s, 2, Len(s))
  IN IF t = "" THEN IF c.rz THEN hint ELSE ""
     ELSE (IF FirstChar(t) = "-" THEN c.hbc ELSE "") \o t \o (IF LastChar(t) = "]" THEN c.hac ELSE "")

WriteGap(X, i, hint, tag, o, c) ==
  LET t == IF OutOfRange(X, GapA(X, i), GapB(X, i)) THEN RawGap(X, i)
           ELSE GapText(X, i, IF o.last = "" THEN " " ELSE o.last, hint, o, c)
  IN Emit(o, t, MeasGap(t), <<t, "g", tag, i>>)

NewLineAfter(o, sp, tag, i, c) ==
  LET t == TrimBlanks(sp)
  IN IF t # ""
     THEN LET u == (IF LastChar(t) = "\n" THEN t ELSE t \o "\n") \o Indent(o, c) IN Emit(o, u, Meas(u), <<u, "g", tag, i>>)
     ELSE LET p == PopBlank(o)
              u == (IF p.last = "\n" THEN "" ELSE "\n") \o Indent(o, c)
          IN Emit(p, u, Meas(u), <<u, "g", tag, i>>)

WriteNewLine(X, i, tag, o, c) ==
  NewLineAfter(o, IF OutOfRange(X, GapA(X, i), GapB(X, i)) THEN RawGap(X, i) ELSE GapText(X, i, " ", "", o, c), tag, i, c)

(* --- tokens --- *)
\* the text of a single-quoted string between double quotes
RECURSIVE Requote(_, _, _, _)
Requote(s, i, esc, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET ch == SubSeq(s, i, i)
       IN Requote(s, i + 1, ~esc /\ ch = "\\", acc \o (IF ch = "\"" /\ ~esc THEN "\\\"" ELSE ch))

WriteToken(X, i, o, c) ==
  LET t == X.L.T[i]
  IN IF t.k = "chr" /\ c.conv
     THEN LET u == "\"" \o Requote(SubSeq(t.s, 2, Len(t.s) - 1), 1, FALSE, "") \o "\"" IN Emit(o, u, Meas(u), <<u, "t", "", i>>)
     ELSE Emit(o, t.s, t.m, <<t.s, "t", "", i>>)

(* --- indentation --- *)
IncIndent(o, tag) ==
  LET top == IF o.stk = <<>> THEN "<none>" ELSE o.stk[Len(o.stk)]
  IN [o EXCEPT !.ind = IF tag = "" \/ top # tag THEN @ + 1 ELSE @, !.stk = Append(@, tag)]
DecIndent(o) ==
  LET last == o.stk[Len(o.stk)]
      rest == SubSeq(o.stk, 1, Len(o.stk) - 1)
      top == IF rest = <<>> THEN "<none>" ELSE rest[Len(rest)]
  IN [o EXCEPT !.ind = IF last = "" \/ top # last THEN @ - 1 ELSE @, !.stk = rest]

(* --- spacing that depends on the construct --- *)
ItemHint(n) ==
  IF n.t \in {";", "args", "args0", "index", "member", "method", "table", "table0"} THEN "" ELSE " "

\* `[` directly followed by a long bracket literal would be read as another long bracket
RECURSIVE BracketHint(_, _)
BracketHint(X, n) ==
  CASE n.t = "tok" -> IF X.L.T[n.a].k = "lstr" THEN " " ELSE ""
    [] n.t = "bin" -> BracketHint(X, n.c[1])
    [] OTHER -> ""

ElementHint(n) == IF n.t \in {"fnname"} THEN "" ELSE " "
Separator(n, c) == CASE n.t = "fields" -> c.fs [] n.t = "fnname" -> "." [] OTHER -> ","

FitsHead(o, p, c) == c.mw >= 0 /\ o.col + p.hl < c.mw

\* the parts `then` ... of an if statement that are not empty
Opt(n, s) == IF n.t = "none" THEN <<>> ELSE s

RECURSIVE W(_, _, _, _), WNode(_, _, _, _), Do(_, _, _, _), Step(_, _, _, _), SepList(_, _, _, _), SepItem(_, _, _, _, _),
          List(_, _, _, _), ListItem(_, _, _, _, _), NeedNL(_, _, _, _, _, _), NeedFirst(_, _, _, _, _),
          TestIndent(_, _, _, _, _), TestOneLine(_, _, _, _), OneLineField(_, _, _, _), Indented(_, _, _, _, _),
          WTable(_, _, _, _), WBin(_, _, _, _), WIf(_, _, _, _), WBody(_, _, _, _)

\* the instructions ins in order
Do(X, ins, o, c) == LET step(p, in) == Step(X, in, p, c) IN FoldLeft(step, o, ins)

Step(X, in, o, c) ==
  CASE in[1] = "T" -> WriteToken(X, in[2], o, c)
    [] in[1] = "G" -> WriteGap(X, in[2], in[3], in[4], o, c)
    [] in[1] = "N" -> IF in[2] THEN WriteNewLine(X, in[3], in[5], o, c) ELSE WriteGap(X, in[3], in[4], in[5], o, c)
    [] in[1] = "W" -> W(X, in[2], o, c)
    [] in[1] = "S" -> Emit(o, in[2], Meas(in[2]), <<in[2], "s", "", in[3]>>)
    [] in[1] = "E" -> NewLineAfter(o, "", in[2], 0, c)
    [] in[1] = "+" -> IncIndent(o, in[2])
    [] in[1] = "-" -> DecIndent(o)
    [] in[1] = "F" -> [o EXCEPT !.fl = @ + in[2]]

\* the instructions written to an empty line buffer; v: the first line fits max_width behind what is already there
TestOneLine(X, ins, o, c) ==
  LET p == Do(X, ins, Fresh(o), c) IN [v |-> FitsHead(o, p, c), o |-> Keep(o, p), p |-> p]

\* as TestOneLine, for a whole node that may not contain line breaks
OneLineNode(X, n, o, c) ==
  LET r == TestOneLine(X, <<<<"W", n>>>>, o, c) IN [r EXCEPT !.v = @ /\ ~r.p.nl]

W(X, n, o, c) ==
  IF n.t = "none" THEN o
  ELSE IF OutOfRange(X, SpanA(X, n), SpanB(X, n))
  THEN LET t == SubSeq(X.s, SpanA(X, n), SpanB(X, n) - 1) IN Emit(o, t, Meas(t), <<t, "r", "", n.a>>)
  ELSE WNode(X, n, o, c)

\* gap `hint` and list n, indented if its lines need it; ins follows
Indented(X, g, n, o, c) ==
  LET t == TestIndent(X, n, g, o, c)
  IN Do(X, IF t.v THEN <<<<"+", "">>, g, <<"W", n>>, <<"-">>>> ELSE <<g, <<"W", n>>>>, t.o, c)

WNode(X, n, o, c) ==
  LET nl(x) == x = 1
      last == n.b
      kw(i) == <<"T", i>>
      stmtBlock(opened, flag, tag) ==   \* a block that follows token `opened` and its closing keyword, last token of n
        IF n.blk.t = "none" THEN <<<<"N", flag, opened + 1, " ", tag>>, kw(opened + 1)>>
        ELSE <<<<"+", "">>, <<"N", flag, opened + 1, " ", tag>>, <<"W", n.blk>>, <<"-">>,
               <<"N", flag, n.blk.b + 1, " ", tag>>, kw(n.blk.b + 1)>>
  IN CASE n.t = "tok" \/ n.t = ";" -> WriteToken(X, n.a, o, c)
       [] n.t = "bin" -> WBin(X, n, o, c)
       [] n.t = "un" -> Do(X, <<kw(n.a), <<"G", n.a + 1, "", "unary">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "not" -> Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "unary">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "var" ->
            Indented(X, <<"G", n.c[2].a, "", "suffix">>, n.c[2], W(X, n.c[1], o, c), c)
       [] n.t = "paren" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, "", "paren">>, <<"W", n.c[1]>>, <<"G", last, "", "paren">>, kw(last)>>, o, c)
       [] n.t = "vrs" ->
            LET close == n.c[1].b + 1
                o1 == Do(X, <<kw(n.a), <<"G", n.a + 1, "", "paren">>, <<"W", n.c[1]>>, <<"G", close, "", "paren">>, kw(close)>>, o, c)
            IN Indented(X, <<"G", close + 1, "", "suffix">>, n.c[2], o1, c)
       [] n.t = "suffs" \/ n.t = "slist" \/ n.t = "elseifs" -> List(X, n, o, c).o
       [] n.t = "args" ->
            LET o1 == Indented(X, <<"G", n.a + 1, "", "args">>, n.c[1], WriteToken(X, n.a, o, c), c)
            IN Do(X, <<<<"G", last, "", "args">>, kw(last)>>, o1, c)
       [] n.t = "args0" -> Do(X, <<kw(n.a), <<"G", last, "", "args">>, kw(last)>>, o, c)
       [] n.t = "index" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, BracketHint(X, n.c[1]), "index">>, <<"W", n.c[1]>>, <<"G", last, "", "index">>, kw(last)>>, o, c)
       [] n.t = "member" -> Do(X, <<kw(n.a), <<"G", last, "", "member">>, kw(last)>>, o, c)
       [] n.t = "method" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, "", "member">>, kw(n.a + 1), <<"G", n.a + 2, "", "member">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "fdef" -> Do(X, <<kw(n.a), <<"G", n.a + 1, "", "fname">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "body" -> WBody(X, n, o, c)
       [] n.t = "table" -> WTable(X, n, o, c)
       [] n.t = "table0" ->
            LET g == WriteGap(X, last, c.htc, "", Fresh(o), c)
            IN Do(X, <<kw(n.a), <<"N", g.nl /\ c.ntc = 1, last, c.htc, "table0">>, kw(last)>>, o, c)
       [] n.t \in {"fields", "explist", "namelist", "varlist", "parlist", "fnname"} -> SepList(X, n, o, c).o
       [] n.t = "fnself" ->
            Do(X, <<<<"G", last - 1, "", "fname">>, kw(last - 1), <<"G", last, "", "fname">>, kw(last)>>, SepList(X, n.c[1], o, c).o, c)
       [] n.t = "fbrack" ->
            LET e == n.c[1].b
            IN Do(X, <<kw(n.a), <<"G", n.a + 1, BracketHint(X, n.c[1]), "key">>, <<"W", n.c[1]>>, <<"G", e + 1, "", "key">>, kw(e + 1),
                       <<"G", e + 2, " ", "field=">>, kw(e + 2), <<"G", e + 3, " ", "field=">>, <<"W", n.c[2]>>>>, o, c)
       [] n.t = "fname" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "field=">>, kw(n.a + 1), <<"G", n.a + 2, " ", "field=">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "fseq" -> W(X, n.c[1], o, c)
       [] n.t = "do" ->
            IF n.blk.t = "none" THEN Do(X, <<kw(n.a), <<"G", last, " ", "do">>, kw(last)>>, o, c)
            ELSE Do(X, <<kw(n.a)>> \o stmtBlock(n.a, nl(c.ndo), "do"), o, c)
       [] n.t = "while" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, <<"W", n.e>>, <<"G", n.e.b + 1, " ", "kw">>, kw(n.e.b + 1)>>
                  \o stmtBlock(n.e.b + 1, nl(c.nwh), "while"), o, c)
       [] n.t = "repeat" ->
            Do(X, <<kw(n.a)>> \o stmtBlock(n.a, nl(c.nrep), "repeat") \o <<<<"G", n.u + 1, " ", "kw">>, <<"W", n.e>>>>, o, c)
       [] n.t = "forint" ->
            LET es == n.c
                commas == IF Len(es) = 2 THEN <<>> ELSE <<<<"G", es[2].b + 1, "", ",">>, kw(es[2].b + 1), <<"G", es[3].a, " ", ",">>, <<"W", es[3]>>>>
                d == es[Len(es)].b + 1
            IN Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, kw(n.a + 1), <<"G", n.a + 2, " ", "=">>, kw(n.a + 2), <<"G", n.a + 3, " ", "=">>,
                       <<"W", es[1]>>, <<"G", es[1].b + 1, "", ",">>, kw(es[1].b + 1), <<"G", es[2].a, " ", ",">>, <<"W", es[2]>>>>
                     \o commas \o <<<<"G", d, " ", "kw">>, kw(d)>>
                     \o (IF n.blk.t = "none" /\ Len(es) = 2 THEN <<<<"G", last, " ", "for">>, kw(last)>> ELSE stmtBlock(d, nl(c.nfor), "for")), o, c)
       [] n.t = "forin" ->
            LET o1 == Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, <<"W", n.c[1]>>, <<"G", n.c[1].b + 1, " ", "kw">>, kw(n.c[1].b + 1)>>, o, c)
                o2 == Indented(X, <<"G", n.c[2].a, " ", "kw">>, n.c[2], o1, c)
                d == n.c[2].b + 1
            IN Do(X, <<<<"G", d, " ", "kw">>, kw(d)>> \o stmtBlock(d, nl(c.nfor), "for"), o2, c)
       [] n.t = "assign" ->
            LET e == n.c[1].b + 1
            IN Indented(X, <<"G", e + 1, " ", "=">>, n.c[2], Do(X, <<<<"W", n.c[1]>>, <<"G", e, " ", "=">>, kw(e)>>, o, c), c)
       [] n.t = "local" -> Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "localeq" ->
            LET e == n.c[1].b + 1
            IN Indented(X, <<"G", e + 1, " ", "=">>, n.c[2],
                        Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, <<"W", n.c[1]>>, <<"G", e, " ", "=">>, kw(e)>>, o, c), c)
       [] n.t = "fdecl" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, <<"W", n.c[1]>>, <<"G", n.c[2].a, "", "fname">>, <<"W", n.c[2]>>>>, o, c)
       [] n.t = "lfdecl" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, kw(n.a + 1), <<"G", n.a + 2, " ", "kw">>, kw(n.a + 2),
                    <<"G", n.a + 3, "", "fname">>, <<"W", n.c[1]>>>>, o, c)
       [] n.t = "label" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, "", "label">>, kw(n.a + 1), <<"G", n.a + 2, "", "label">>, kw(n.a + 2)>>, o, c)
       [] n.t = "goto" -> Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, kw(n.a + 1)>>, o, c)
       [] n.t = "if" -> WIf(X, n, o, c)
       [] n.t = "elseif" ->
            Do(X, <<kw(n.a), <<"G", n.a + 1, " ", "kw">>, <<"W", n.e>>, <<"G", n.e.b + 1, " ", "kw">>, kw(n.e.b + 1)>>
                  \o Opt(n.blk, <<<<"+", "">>, <<"N", nl(c.nif), n.blk.a, " ", "if">>, <<"W", n.blk>>, <<"-">>>>), o, c)
       [] n.t = "ret" ->
            LET o1 == WriteToken(X, n.a, o, c)
                g == <<"G", n.a + 1, " ", "return">>
            IN IF n.e.t = "none"
               THEN IF n.semi THEN Do(X, <<<<"G", last, "", "return;">>, kw(last)>>, o1, c) ELSE o1
               ELSE LET t == TestIndent(X, n.e, g, o1, c)
                    IN Do(X, (IF t.v THEN <<<<"+", "">>>> ELSE <<>>) \o <<g, <<"W", n.e>>>>
                             \o (IF n.semi THEN <<<<"G", last, "", "return;">>>> ELSE <<>>)
                             \o (IF t.v THEN <<<<"-">>>> ELSE <<>>)
                             \o (IF n.semi THEN <<kw(last)>> ELSE <<>>), t.o, c)
       [] n.t = "block" ->
            LET g == n.c[2].a
            IN IF NotContained(X, SpanA(X, n), SpanB(X, n))
               THEN LET o1 == W(X, n.c[1], o, c)
                        t == RawGap(X, g)
                    IN W(X, n.c[2], Emit(o1, t, Meas(t), <<t, "r", "", g>>), c)
               ELSE Do(X, <<<<"W", n.c[1]>>, <<"N", c.nst >= 0, g, " ", "stat">>, <<"W", n.c[2]>>>>, o, c)

WBin(X, n, o, c) ==
  LET k == n.c[1].b + 1
      o1 == Do(X, <<<<"+", X.L.T[k].s>>, <<"W", n.c[1]>>>>, o, c)
      nl1 == c.nbo = 1
      nl2 == c.nbo = 2
      t == TestOneLine(X, <<<<"G", k, " ", "bin">>, <<"T", k>>, <<"G", k + 1, " ", "bin">>, <<"W", n.c[2]>>>>, o1, c)
      fold == (nl1 \/ nl2) /\ c.fbo
      one == fold /\ t.v
  IN Do(X, <<<<"N", nl1 /\ ~one, k, " ", "bin">>, <<"T", k>>, <<"N", nl2 /\ ~one, k + 1, " ", "bin">>, <<"W", n.c[2]>>, <<"-">>>>,
        IF fold THEN t.o ELSE o1, c)

WBody(X, n, o, c) ==
  LET try == c.mw >= 0 /\ c.nfun >= 0 /\ MayFit(X, n, c) /\ (IF o.fl = 0 THEN c.ftf ELSE o.fl > 0 /\ c.fsf)
      t == OneLineNode(X, n, o, [c EXCEPT !.nfun = -1])
      nl == c.nfun = 1
      params == IF n.p.t = "none" THEN <<<<"G", n.r, "", "params">>>>
                ELSE <<<<"+", "">>, <<"G", n.a + 1, "", "params">>, <<"W", n.p>>, <<"G", n.r, "", "params">>, <<"-">>>>
      body == IF n.blk.t = "none" THEN <<<<"N", nl, n.b, " ", "func">>>>
              ELSE <<<<"+", "">>, <<"F", 1>>, <<"N", nl, n.r + 1, " ", "func">>, <<"W", n.blk>>, <<"-">>, <<"F", -1>>, <<"N", nl, n.b, " ", "func">>>>
  IN IF try /\ t.v THEN EmitAll(o, t.p)
     ELSE Do(X, <<<<"T", n.a>>>> \o params \o <<<<"T", n.r>>>> \o body \o <<<<"T", n.b>>>>, IF try THEN t.o ELSE o, c)

WIf(X, n, o, c) ==
  LET try == c.mw >= 0 /\ c.fif /\ c.nif >= 0 /\ MayFit(X, n, c)
      t == OneLineNode(X, n, o, [c EXCEPT !.nif = -1])
      nl == c.nif = 1
      th == n.e.b + 1                          \* then
      e1 == IF n.b1.t = "none" THEN th ELSE n.b1.b
      e2 == IF n.v.t = "none" THEN e1 ELSE n.v.b   \* else is token e2 + 1
      head == <<<<"T", n.a>>, <<"G", n.a + 1, " ", "kw">>, <<"W", n.e>>, <<"G", th, " ", "kw">>, <<"T", th>>>>
      b1 == Opt(n.b1, <<<<"+", "">>, <<"N", nl, th + 1, " ", "if">>, <<"W", n.b1>>, <<"-">>>>)
      v == Opt(n.v, <<<<"N", nl, e1 + 1, " ", "if">>, <<"W", n.v>>>>)
      el == IF ~n.el THEN <<>>
            ELSE IF n.b1.t = "none" /\ n.v.t = "none" THEN <<<<"G", e2 + 1, " ", "if">>, <<"T", e2 + 1>>>>
            ELSE <<<<"N", nl, e2 + 1, " ", "if">>, <<"T", e2 + 1>>>>
      b2 == Opt(n.b2, <<<<"+", "">>, <<"N", nl, n.b2.a, " ", "if">>, <<"W", n.b2>>, <<"-">>>>)
  IN IF try /\ t.v THEN EmitAll(o, t.p)
     ELSE Do(X, head \o b1 \o v \o el \o b2 \o <<<<"N", nl, n.b, " ", "if">>, <<"T", n.b>>>>, IF try THEN t.o ELSE o, c)

WTable(X, n, o, c) ==
  LET try == c.mw >= 0 /\ c.ntc >= 0 /\ c.ft /\ MayFit(X, n, c)
      t == OneLineNode(X, n, o, [c EXCEPT !.ntc = -1, !.ntf = -1, !.wts = "false", !.wmt = "false", !.wet = "false"])
      o1 == IF try THEN t.o ELSE o
      bnl == c.wmt = "true" /\ n.a \notin o1.one
      o2 == Do(X, (IF bnl THEN <<<<"E", "table">>>> ELSE <<>>) \o <<<<"T", n.a>>, <<"F", 1>>>>, o1, c)
      g == <<"G", n.a + 1, c.htc, "table">>
      ti == IF c.ft /\ n.f.iv /\ n.sc THEN TestIndent(X, n.f, g, o2, c) ELSE [v |-> TRUE, o |-> o2]
      o3 == [ti.o EXCEPT !.hi = IF ti.v THEN @ \cup {n.a} ELSE @ \ {n.a}]
      o4 == Do(X, (IF ti.v THEN <<<<"+", "">>>> ELSE <<>>) \o <<g, <<"W", n.f>>>>, o3, c)
      nl == ti.v /\ (c.ntc = 1 \/ (c.mw >= 0 /\ o4.col >= c.mw))
      o5 == Do(X, (IF ti.v THEN <<<<"-">>>> ELSE <<>>) \o <<<<"F", -1>>>>, o4, c)
      o6 == Step(X, <<"N", nl, n.b, c.htc, "table">>, o5, c)
  IN IF try /\ t.v THEN [EmitAll(o, t.p) EXCEPT !.one = @ \cup {n.a}]
     ELSE WriteToken(X, n.b, o6, c)

\* would list n, written after gap g, contain a line break that asks for an indent?
TestIndent(X, n, g, o, c) ==
  LET look == Step(X, g, o, c)
      r == IF n.t = "suffs" THEN List(X, n, look, c) ELSE SepList(X, n, look, c)
      seen == [v |-> r.v, o |-> Keep(o, r.o)]
      yes == [v |-> TRUE, o |-> o]
      no == [v |-> FALSE, o |-> o]
  IN CASE n.t = "suffs" -> IF ~c.ivs THEN no ELSE IF c.iovs THEN yes ELSE seen
       [] n.t = "explist" ->
            IF ~c.iel THEN no ELSE IF c.ioel THEN yes
            ELSE IF Len(n.its) = 1 /\ c.nelf < 0 THEN no ELSE seen
       [] n.t = "fields" -> seen

\* the field, kept on one line
OneLineField(X, n, o, c) ==
  IF c.mw >= 0 /\ c.ntf >= 0 /\ MayFit(X, n, c) THEN OneLineNode(X, n, o, c)
  ELSE [v |-> FALSE, o |-> o]

\* does item n of list `parent`, which follows prev, start on a new line?  [v, o]
NeedNL(X, n, prev, parent, o, c) ==
  LET yes == [v |-> TRUE, o |-> o]
      no == [v |-> FALSE, o |-> o]
      isn(r) == [v |-> ~r.v, o |-> r.o]
  IN CASE parent.t = "slist" -> IF c.nst >= 0 THEN yes ELSE no
       [] parent.t = "explist" ->
            IF n.t = "table" /\ c.wet = "true" /\ c.wmt = "false" THEN yes
            ELSE IF c.nel # 1 THEN no
            ELSE IF c.fel THEN isn(TestOneLine(X, <<<<"W", n>>>>, o, c)) ELSE yes
       [] parent.t = "elseifs" -> IF c.nif = 1 THEN yes ELSE no
       [] parent.t = "fields" ->
            IF c.ntf < 0 THEN no
            ELSE IF parent.iv /\ c.fiv
            THEN IF c.ft /\ prev.t = "fseq"
                 THEN IF prev.c[1].t = "table"
                      THEN IF prev.c[1].a \in o.one THEN yes ELSE LET r == OneLineNode(X, n, o, c) IN [v |-> r.v, o |-> r.o]
                      ELSE isn(OneLineNode(X, n, o, c))
                 ELSE no
            ELSE IF c.fkv /\ ~parent.iv THEN isn(OneLineField(X, n, o, c))
            ELSE yes
       [] parent.t = "suffs" ->
            IF n.t \notin {"method", "member"} \/ c.nvs < 0 THEN no
            ELSE IF ~c.fvs THEN yes
            ELSE IF n.t = "method" /\ (n.c[1].t \in {"table", "table0", "args0"} \/ (n.c[1].t = "args" /\ c.nelf >= 0))
            THEN isn(TestOneLine(X, <<<<"T", n.a>>, <<"G", n.a + 1, "", "member">>, <<"T", n.a + 1>>>>, o, c))
            ELSE isn(TestOneLine(X, <<<<"W", n>>>>, o, c))
       [] OTHER -> no

NeedFirst(X, n, parent, o, c) ==
  LET yes == [v |-> TRUE, o |-> o]
      no == [v |-> FALSE, o |-> o]
      isn(r) == [v |-> ~r.v, o |-> r.o]
  IN CASE parent.t = "fields" ->
            IF c.ntf < 0 THEN no
            ELSE IF c.ft /\ parent.iv /\ c.fiv
            THEN IF (parent.a - 1) \in o.hi \/ ~parent.sc THEN yes ELSE no
            ELSE IF (c.fiv /\ parent.iv) \/ (c.fkv /\ ~parent.iv) THEN isn(OneLineField(X, n, o, c))
            ELSE yes
       [] parent.t = "explist" ->
            IF c.nelf # 1 THEN no ELSE IF c.fel THEN isn(TestOneLine(X, <<<<"W", n>>>>, o, c)) ELSE yes
       [] parent.t = "suffs" -> NeedNL(X, n, n, parent, o, c)
       [] OTHER -> no

\* must lists of this kind look for line breaks at all?
Breaks(n, c) ==
  CASE n.t = "fields" -> c.ntf >= 0
    [] n.t = "explist" -> c.nel >= 0 \/ c.nelf >= 0
    [] n.t = "slist" -> c.nst >= 0
    [] n.t = "elseifs" -> c.nif >= 0
    [] n.t = "suffs" -> c.nvs >= 0
    [] OTHER -> FALSE

TagOf(n) == CASE n.t = "fields" -> "field" [] n.t = "slist" -> "stat" [] n.t = "elseifs" -> "if" [] n.t = "suffs" -> "suffix"
              [] n.t = "explist" -> "exps" [] n.t = "fnname" -> "fname" [] n.t = "parlist" -> "params" [] OTHER -> "names"

(* lists without separators *)
List(X, n, o, c) ==
  LET r == IF Breaks(n, c) THEN NeedFirst(X, n.c[1], n, o, c) ELSE [v |-> FALSE, o |-> o]
      o1 == W(X, n.c[1], IF r.v THEN Step(X, <<"E", TagOf(n)>>, r.o, c) ELSE r.o, c)
      step(st, j) == ListItem(X, n, j, st, c)
  IN FoldLeft(step, [v |-> r.v, o |-> o1], [j \in 1..(Len(n.c) - 1) |-> j + 1])

\* item j, [v, o]: whether there was a line break so far, and the output
ListItem(X, n, j, st, c) ==
  LET it == n.c[j]
      out == OutOfRange(X, GapA(X, it.a), GapB(X, it.a))
      r == IF ~out /\ Breaks(n, c) THEN NeedNL(X, it, n.c[j - 1], n, st.o, c) ELSE [v |-> FALSE, o |-> st.o]
  IN [v |-> st.v \/ r.v, o |-> Do(X, <<<<"N", r.v, it.a, ItemHint(it), TagOf(n)>>, <<"W", it>>>>, r.o, c)]

(* lists with separators *)
SepText(X, n, it, c) ==
  LET s == Separator(n, c) IN IF s # None THEN s ELSE IF it.s = 0 THEN "" ELSE X.L.T[it.s].s

\* the gap after an item: the one before its separator
AfterItem(n, it, tag) == IF it.s # 0 THEN <<<<"G", it.s, "", tag>>>> ELSE <<>>

SepTag(n) == IF n.t = "fields" THEN "fieldsep" ELSE IF n.t = "fnname" THEN "fname" ELSE ","

SepList(X, n, o, c) ==
  LET r == IF Breaks(n, c) THEN NeedFirst(X, n.its[1].n, n, o, c) ELSE [v |-> FALSE, o |-> o]
      o1 == W(X, n.its[1].n, IF r.v THEN Step(X, <<"E", TagOf(n)>>, r.o, c) ELSE r.o, c)
      o2 == Do(X, AfterItem(n, n.its[1], SepTag(n)), o1, c)
      step(st, j) == SepItem(X, n, j, st, c)
      rest == FoldLeft(step, [v |-> r.v, o |-> o2], [j \in 1..(Len(n.its) - 1) |-> j + 1])
      last == n.its[Len(n.its)]
      trailing ==
        IF n.t # "fields" THEN FALSE
        ELSE LET forced == c.ft /\ ((c.ntf < 0 /\ c.ntc < 0) \/ (n.iv /\ (n.a - 1) \notin rest.o.hi))
             IN IF forced THEN FALSE ELSE IF c.wts = None THEN last.s # 0 ELSE c.wts = "true"
  IN IF trailing THEN [rest EXCEPT !.o = Step(X, <<"S", SepText(X, n, last, c), last.s>>, @, c)] ELSE rest

SepItem(X, n, j, st, c) ==
  LET prev == n.its[j - 1]
      it == n.its[j]
      o1 == Step(X, <<"S", SepText(X, n, prev, c), prev.s>>, st.o, c)
      out == OutOfRange(X, GapA(X, it.n.a), GapB(X, it.n.a))
      r == IF ~out /\ Breaks(n, c) THEN NeedNL(X, it.n, prev.n, n, o1, c) ELSE [v |-> FALSE, o |-> o1]
  IN [v |-> st.v \/ r.v,
      o |-> Do(X, <<<<"N", r.v, it.n.a, ElementHint(n), TagOf(n)>>, <<"W", it.n>>>> \o AfterItem(n, it, SepTag(n)), r.o, c)]

(* --- line range to character range --- *)
LineEnds(ch) ==
  LET pos == [i \in 1..Len(ch) |-> i]
      isEnd(i) == ch[i] = "\n"
      breaks == SelectSeq(pos, isEnd)
  IN <<0>> \o [i \in 1..Len(breaks) |-> breaks[i] - 1] \o <<Len(ch)>>

\* e[j + 1] is the position that ends line j (the line break before line j + 1 belongs to both)
CharRange(src, lr) ==
  LET e == LineEnds(Chars(src))
      lines == Len(e) - 1
      l == IF lr[1] > 0 /\ lr[1] <= lr[2] /\ lr[1] <= lines THEN lr[1] ELSE 1
      r == IF lr[2] > 0 /\ lr[1] <= lr[2] /\ lr[2] <= lines THEN lr[2] ELSE lines
  IN <<e[l], e[r + 1]>>

\* top-level statements in order
RECURSIVE Flatten(_, _, _)
Flatten(ns, j, acc) ==
  IF j > Len(ns) THEN acc
  ELSE Flatten(ns, j + 1, IF ns[j].t = "slist" THEN acc \o ns[j].c ELSE Append(acc, ns[j]))
TopLevel(n) ==
  CASE n.t = "none" -> <<>>
    [] n.t = "slist" -> Flatten(n.c, 1, <<>>)
    [] n.t = "block" -> Append(Flatten(n.c[1].c, 1, <<>>), n.c[2])
    [] OTHER -> <<n>>

\* the range grows to whole top-level statements
RECURSIVE Extend(_, _, _, _)
Extend(L, st, j, rng) ==
  IF j > Len(st) THEN rng
  ELSE LET a == L.T[st[j].a].a - 1
           b == L.T[st[j].b].b - 1
       IN Extend(L, st, j + 1,
                 IF rng[2] > a /\ rng[1] < b THEN <<IF a < rng[1] THEN a ELSE rng[1], IF b > rng[2] THEN b ELSE rng[2]>> ELSE rng)

Source(src, L, P, opts) ==
  LET lr == opts["line_range"]
      bounds == RangeOf(lr)
      rng == Extend(L, TopLevel(P.n), 1, CharRange(src, <<ToInt(bounds[1]), ToInt(bounds[2])>>))
      longer(acc, t) == Append(acc, acc[Len(acc)] + Len(t.s))
      X == [s |-> src, L |-> L, pl |-> FoldLeft(longer, <<0>>, L.T), rng |-> FALSE, l |-> 0, r |-> 0, gi |-> 0]
  IN IF lr = None \/ ~P.ok THEN X
     ELSE [X EXCEPT !.rng = TRUE, !.l = rng[1], !.r = rng[2]]

(* The whole file: the gap at the start, an optional #! line, the block and the gap at the end. *)
Format(X, P, c) ==
  LET T == X.L.T
      n == Len(T)
      nl == c.eof /\ (~X.rng \/ X.r >= Len(X.s))
      o1 == WriteGap(X, 1, "", "bof", Out0, c)
      o2 == IF P.sb THEN WriteToken(X, 1, o1, c) ELSE o1
      o3 == IF P.sb /\ P.n.t # "none" THEN WriteGap(X, 2, "", "bof", o2, c) ELSE o2
      o4 == W(X, P.n, o3, c)
  IN IF n = 0
     THEN IF nl THEN Step(X, <<"E", "eof">>, o1, c) ELSE o1   \* the whole file is one gap
     ELSE Step(X, <<"N", nl, n + 1, "", "eof">>, o4, c)

OutputText(o) == LET join(t, p) == t \o p[1] IN FoldLeft(join, "", o.ps)

\* [ok, o]: the output luafmt must produce for source src under the option record opts
Predict(src, opts) ==
  LET L == Lex(src)
      P == Parse(L)
      X == Source(src, L, P, opts)
  IN IF P.ok THEN [ok |-> TRUE, L |-> L, P |-> P, X |-> X, o |-> Format(X, P, LayoutOptions(opts))]
     ELSE [ok |-> FALSE, L |-> L, P |-> P, X |-> X, o |-> Out0]
=============================================================================
