----------------------------- MODULE Relations -----------------------------
(***************************************************************************)
(* What must hold between a source and what luafmt makes of it, stated on  *)
(* texts, tokens, comments and statements only, without the layout rules:  *)
(* these operators judge outputs of the real formatter as well as outputs  *)
(* of the transducer of Layout.                                            *)
(***************************************************************************)
EXTENDS Layout, FiniteSets

Range1(n) == [j \in 1..n |-> j]

(* --- the value of a quoted string: the bytes it denotes --- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
ByteOf == [c \in {SubSeq(Printable, j, j) : j \in 1..Len(Printable)} |-> 31 + CHOOSE j \in 1..Len(Printable) : SubSeq(Printable, j, j) = c]
Controls == [c \in {"\n", "\t", "\r", "\f", Odd.vt} |-> CASE c = "\n" -> 10 [] c = "\t" -> 9 [] c = "\r" -> 13 [] c = "\f" -> 12 [] OTHER -> 11]
Named == [n |-> 10, t |-> 9, r |-> 13, f |-> 12, v |-> 11, a |-> 7, b |-> 8]
Item(c) == IF c \in DOMAIN ByteOf THEN ByteOf[c] ELSE IF c \in DOMAIN Controls THEN Controls[c] ELSE 0
Known(c) == c \in DOMAIN ByteOf \cup DOMAIN Controls
HexValue(c) == LET n == ByteOf[c] IN IF n <= 57 THEN n - 48 ELSE IF n <= 70 THEN n - 55 ELSE n - 87
ValueOf(ds, base) == FoldLeft(LAMBDA n, c : n * base + HexValue(c), 0, ds)
RECURSIVE DenoteFrom(_, _)
\* [b: byte] or [c: what stands there]
DenoteFrom(cs, i) ==
  LET c == At(cs, i + 1)
      byte(n, next) == <<[b |-> n, c |-> ""]>> \o DenoteFrom(cs, next)
      other(t, next) == <<[b |-> 0, c |-> t]>> \o DenoteFrom(cs, next)
      digits == LET e == SkipIn(cs, i + 1, Digit) IN IF e > i + 4 THEN i + 4 ELSE e
      hex == SkipIn(cs, i + 3, HexDigit)
  IN IF i > Len(cs) THEN <<>>
     ELSE IF cs[i] # "\\" THEN IF Known(cs[i]) THEN byte(Item(cs[i]), i + 1) ELSE other(cs[i], i + 1)
     ELSE CASE c \in DOMAIN Named -> byte(Named[c], i + 2)
            [] c \in {"\n", "\\", "\"", "'"} -> byte(Item(c), i + 2)
            [] c = "z" -> DenoteFrom(cs, SkipIn(cs, i + 2, Space \cup {"\n"}))
            [] c \in Digit -> byte(ValueOf(SubSeq(cs, i + 1, digits - 1), 10), digits)
            [] c = "x" /\ At(cs, i + 2) \in HexDigit /\ At(cs, i + 3) \in HexDigit -> byte(ValueOf(SubSeq(cs, i + 2, i + 3), 16), i + 4)
            [] c = "u" /\ At(cs, i + 2) = "{" /\ At(cs, hex) = "}" /\ hex \in (i + 4)..(i + 5) /\ HexValue(cs[i + 3]) < 8 -> byte(ValueOf(SubSeq(cs, i + 3, hex - 1), 16), hex + 1)
            [] OTHER -> other("\\" \o c, i + 2)
Denote(s) == DenoteFrom(Chars(SubSeq(s, 2, Len(s) - 1)), 1)

(* --- tokens up to table separators and quotes --- *)
Openers == {"{", "(", "[", "if", "function", "do", "repeat"}
Closers == {"}", ")", "]", "end", "until"}

\* the sequence of [k, s, i, sep]: sep marks a field separator
MarkSeps(L) ==
  LET step(st, i) ==
        LET t == L.T[i]
            top == IF st.stk = <<>> THEN "" ELSE st.stk[Len(st.stk)]
            sep == t.k \in {",", ";"} /\ top = "{"
        IN [stk |-> IF t.k \in Openers THEN Append(st.stk, t.k)
                    ELSE IF t.k \in Closers /\ st.stk # <<>> THEN SubSeq(st.stk, 1, Len(st.stk) - 1) ELSE st.stk,
            seq |-> Append(st.seq, [k |-> t.k, s |-> t.s, i |-> i, sep |-> sep])]
  IN FoldLeft(step, [stk |-> <<>>, seq |-> <<>>], Range1(Len(L.T))).seq

\* what a token is, for comparison
TokenKey(t, c) ==
  CASE t.sep -> IF c.fs = None THEN <<t.s>> ELSE <<"SEP">>
    [] t.k \in {"chr", "str"} /\ c.conv -> <<"quoted", Denote(t.s)>>
    [] OTHER -> <<t.s>>

\* without trailing separators
TokenKeys(L, c) ==
  LET m == MarkSeps(L)
      keep(i) == ~(m[i].sep /\ i < Len(m) /\ m[i + 1].k = "}")
      idx == SelectSeq(Range1(Len(m)), keep)
  IN [j \in 1..Len(idx) |-> TokenKey(m[idx[j]], c)]

SameTokens(L1, L2, c) == L1.ok /\ L2.ok /\ TokenKeys(L1, c) = TokenKeys(L2, c)

(* --- comments --- *)
\* the comments in front of each token that is no field separator, and at the end
CommentGroups(L) ==
  LET m == MarkSeps(L)
      step(st, i) ==
        LET cs == SelectSeq(L.G[i], IsComment)
        IN IF i <= Len(m) /\ m[i].sep THEN [st EXCEPT !.cur = @ \o cs]
           ELSE [seq |-> Append(st.seq, st.cur \o cs), cur |-> <<>>]
  IN FoldLeft(step, [seq |-> <<>>, cur |-> <<>>], Range1(Len(L.G))).seq

\* a comment up to the white space the hints normalise; in the input (inp) without the text the hints put in front
CommentKey(it, c, inp) ==
  IF it.k = "line"
  THEN <<"line", IF c.hbot = None THEN it.x
                 ELSE LET x == TrimStart(it.x) IN IF inp /\ x # "" THEN TrimStart(c.hbot \o x) ELSE x>>
  ELSE LET x1 == IF c.hbmt = None THEN it.x ELSE TrimStart(it.x)
           x2 == IF c.hact = None THEN x1 ELSE TrimEnd(x1)
           x3 == (IF inp /\ c.hbmt # None THEN c.hbmt ELSE "") \o x2 \o (IF inp /\ c.hact # None THEN c.hact ELSE "")
           y1 == IF c.hbmt = None THEN x3 ELSE TrimStart(x3)
       IN <<"block", it.lv, IF c.hact = None THEN y1 ELSE TrimEnd(y1)>>

CommentKeys(L, c, inp) ==
  LET g == CommentGroups(L) IN [j \in 1..Len(g) |-> [k \in 1..Len(g[j]) |-> CommentKey(g[j][k], c, inp)]]

SameComments(L1, L2, c) ==
  L1.ok /\ L2.ok
  /\ IF c.rc THEN \A i \in 1..Len(L2.G) : SelectSeq(L2.G[i], IsComment) = <<>>
     ELSE CommentKeys(L1, c, TRUE) = CommentKeys(L2, c, FALSE)

(* --- literals --- *)
Literals(L) == SelectSeq(L.T, LAMBDA t : t.k \in {"num", "str", "chr", "lstr"})
SameLiterals(L1, L2, c) ==
  LET a == Literals(L1)
      b == Literals(L2)
  IN /\ L1.ok /\ L2.ok
     /\ Len(a) = Len(b)
     /\ \A j \in 1..Len(a) :
          IF a[j].k = "chr" /\ c.conv THEN b[j].k = "str" /\ Denote(a[j].s) = Denote(b[j].s) ELSE b[j].s = a[j].s

(* --- identity --- *)
Unterminated(src, L) ==
  LET g == L.G[Len(L.G)]
  IN src # "" /\ LastChar(src) # "\n"
     /\ IF g = <<>> THEN Len(L.T) > 0 /\ L.T[Len(L.T)].k = "#!" /\ L.T[Len(L.T)].b = Len(src) + 1
        ELSE g[Len(g)].k = "line" /\ g[Len(g)].b = Len(src) + 1
Identity(src, out) == out = src \/ (Unterminated(src, Lex(src)) /\ out = src \o "\n")

(* --- statements of the file --- *)
Statements(P) == TopLevel(P.n)
SpanText(src, L, n) == SubSeq(src, L.T[n.a].a, L.T[n.b].b - 1)

\* 1-based line of position p
LineOf(src, p) == 1 + Len(SelectSeq(Chars(SubSeq(src, 1, p - 1)), LAMBDA c : c = "\n"))

\* the lines a range selects: a bound that is 0 or behind the last line, or an inverted range, means first / last
Lines(src, lr) ==
  LET n == 1 + Len(SelectSeq(Chars(src), LAMBDA c : c = "\n"))
      l == ToInt(lr[1])
      r == ToInt(lr[2])
  IN <<IF l > 0 /\ l <= r /\ l <= n THEN l ELSE 1, IF r > 0 /\ l <= r /\ r <= n THEN r ELSE n>>

\* is a bound 0 or behind the last line, or the range inverted?
InvalidBound(src, lr) ==
  LET n == 1 + Len(SelectSeq(Chars(src), LAMBDA c : c = "\n"))
      l == ToInt(lr[1])
      r == ToInt(lr[2])
  IN l = 0 \/ r = 0 \/ l > r \/ l > n \/ r > n

\* the indices of the statements that touch the selected lines
Selected(src, L, st, lr) ==
  LET ls == Lines(src, lr)
  IN {j \in 1..Len(st) : LineOf(src, L.T[st[j].a].a) <= ls[2] /\ LineOf(src, L.T[st[j].b].b - 1) >= ls[1]}

IsPrefixText(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixText(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* everything up to the last statement in front of the range and from the first statement behind it on is untouched
OutsideUntouched(src, L, P, lr, out) ==
  LET st == Statements(P)
      ls == Lines(src, lr)
      before == {j \in 1..Len(st) : LineOf(src, L.T[st[j].b].b - 1) < ls[1]}
      after == {j \in 1..Len(st) : LineOf(src, L.T[st[j].a].a) > ls[2]}
      pre == IF before = {} THEN "" ELSE SubSeq(src, 1, L.T[st[Cardinality(before)].b].b - 1)
      suf == IF after = {} THEN "" ELSE SubSeq(src, L.T[st[Len(st) - Cardinality(after) + 1].a].a, Len(src))
      fixed == IF Unterminated(src, L) /\ suf # "" THEN suf \o "\n" ELSE suf
  IN /\ IsPrefixText(pre, out)
     /\ (IsSuffixText(suf, out) \/ IsSuffixText(fixed, out))
     /\ Len(out) >= Len(pre) + Len(suf)

\* the text from the end of statement j (0: the start) to the start of the next one (or the end)
GapAfter(src, L, st, j) ==
  SubSeq(src, IF j = 0 THEN 1 ELSE L.T[st[j].b].b, IF j = Len(st) THEN Len(src) ELSE L.T[st[j + 1].a].a - 1)

\* the gaps next to no selected statement are those of the text by, which says what the rules make of the selected lines in them
GapsAs(src, L, P, lr, out, by) ==
  LET L2 == Lex(out)
      P2 == Parse(L2)
      L3 == Lex(by)
      P3 == Parse(L3)
      s1 == Statements(P)
      s2 == Statements(P2)
      s3 == Statements(P3)
      sel == Selected(src, L, s1, lr)
  IN P3.ok /\ Len(s3) = Len(s1) =>
       /\ P2.ok /\ Len(s2) = Len(s1)
       /\ \A j \in 0..Len(s1) : (j \notin sel /\ j + 1 \notin sel) => GapAfter(out, L2, s2, j) = GapAfter(by, L3, s3, j)

\* the selected statements stand in out as they stand in full
SelectedAsInFull(src, L, P, lr, out, full) ==
  LET L2 == Lex(out)
      P2 == Parse(L2)
      L3 == Lex(full)
      P3 == Parse(L3)
      s1 == Statements(P)
      s2 == Statements(P2)
      s3 == Statements(P3)
  IN /\ P2.ok /\ P3.ok /\ Len(s2) = Len(s1) /\ Len(s3) = Len(s1)
     /\ \A j \in Selected(src, L, s1, lr) : SpanText(out, L2, s2[j]) = SpanText(full, L3, s3[j])

(* --- differences from the layout the transducer writes --- *)
\* start position of every piece
PieceStarts(ps) ==
  LET step(st, p) == [a |-> Append(st.a, st.n + 1), n |-> st.n + Len(p[1])]
  IN FoldLeft(step, [a |-> <<>>, n |-> 0], ps).a

\* tags of the gap pieces that lie in gap k of the text o writes, whose lexical structure is L
TagsAt(o, L, k, len) ==
  LET st == PieceStarts(o.ps)
      a == IF k = 1 THEN 1 ELSE L.T[k - 1].b
      b == IF k <= Len(L.T) THEN L.T[k].a ELSE len + 1
  IN {o.ps[j][3] : j \in {i \in 1..Len(o.ps) : o.ps[i][2] \in {"g", "r"} /\ st[i] >= a /\ st[i] + Len(o.ps[i][1]) <= b}}

GapOf(s, L, k) == SubSeq(s, IF k = 1 THEN 1 ELSE L.T[k - 1].b, (IF k <= Len(L.T) THEN L.T[k].a ELSE Len(s) + 1) - 1)
HasBreak(s) == \E j \in 1..Len(s) : SubSeq(s, j, j) = "\n"

\* [tags, breaks]: where out differs from what o writes ("tokens": in its tokens), and whether line breaks are involved
Differences(o, out) ==
  LET t == OutputText(o)
      A == Lex(t)
      B == Lex(out)
      same == B.ok /\ [j \in 1..Len(A.T) |-> A.T[j].s] = [j \in 1..Len(B.T) |-> B.T[j].s]
      bad == {k \in 1..Len(A.G) : GapOf(t, A, k) # GapOf(out, B, k)}
  IN IF t = out THEN [tags |-> {}, breaks |-> FALSE]
     ELSE IF ~same THEN [tags |-> {"tokens"}, breaks |-> TRUE]
     ELSE [tags |-> UNION {TagsAt(o, A, k, Len(t)) : k \in bad},
           breaks |-> \E k \in bad : HasBreak(GapOf(t, A, k)) \/ HasBreak(GapOf(out, B, k))]
=============================================================================
