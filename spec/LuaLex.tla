------------------------------ MODULE LuaLex ------------------------------
(***************************************************************************)
(* Lexical structure of Lua sources as luafmt reads them.  A source is a   *)
(* sequence of characters ch[1..n].  The lexer is a state machine over     *)
(*   [i |-> position, T |-> tokens so far, G |-> finished gaps,            *)
(*    g |-> items of the gap being read, ok |-> no lexical error so far]   *)
(* LexStep reads one token, one comment or one line break; Lex is its      *)
(* closure.  Gap k is the text between token k-1 and token k (gap n+1 ends *)
(* the file); its items are line breaks and comments with their positions. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

\* characters that are hard to write down
Odd == JsonDeserialize("odd.json")

Digit == {"0","1","2","3","4","5","6","7","8","9"}
HexDigit == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
Alpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
AlNum == Alpha \cup Digit
Space == {" ", "\t", "\r", "\f", Odd.vt}
Keyword == {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or",
            "repeat","return","then","true","until","while"}

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
At(ch, i) == IF i <= Len(ch) THEN ch[i] ELSE ""
LastChar(s) == IF s = "" THEN "" ELSE SubSeq(s, Len(s), Len(s))
FirstChar(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)

\* first position j >= i whose character is not in S
RECURSIVE SkipIn(_, _, _)
SkipIn(ch, i, S) == IF i <= Len(ch) /\ ch[i] \in S THEN SkipIn(ch, i + 1, S) ELSE i

\* first position j >= i that holds character c, or Len(ch)+1
RECURSIVE Find(_, _, _)
Find(ch, i, c) == IF i > Len(ch) \/ ch[i] = c THEN i ELSE Find(ch, i + 1, c)

RECURSIVE FindClose(_, _, _)
\* position of the `]` that starts the closing bracket of level lv, or 0
FindClose(ch, i, lv) ==
  LET j == Find(ch, i, "]")
  IN IF j > Len(ch) THEN 0
     ELSE LET e == SkipIn(ch, j + 1, {"="})
          IN IF e - (j + 1) = lv /\ At(ch, e) = "]" THEN j ELSE FindClose(ch, e, lv)

RECURSIVE FindQuote(_, _, _)
\* position of the closing quote q (a backslash takes the next character with it), or 0
FindQuote(ch, i, q) ==
  IF i > Len(ch) THEN 0
  ELSE IF ch[i] = q THEN i
  ELSE IF ch[i] = "\\" THEN FindQuote(ch, i + 2, q)
  ELSE FindQuote(ch, i + 1, q)

\* If a long bracket opens at i ("[", k times "=", "["): [lv |-> k, o |-> first text position], otherwise lv = -1 as 1000000
NoLevel == 1000000
LongOpen(ch, i) ==
  IF At(ch, i) # "[" THEN [lv |-> NoLevel, o |-> i]
  ELSE LET e == SkipIn(ch, i + 1, {"="})
       IN IF At(ch, e) = "[" THEN [lv |-> e - (i + 1), o |-> e + 1] ELSE [lv |-> NoLevel, o |-> e]

(* numerals, as luafmt delimits them; 0 is a lexical error *)
NumEnd(ch, i) ==
  IF ch[i] = "0" /\ At(ch, i + 1) \in {"x", "X"}
  THEN LET e == SkipIn(ch, i + 2, HexDigit) IN IF e = i + 2 /\ e > Len(ch) THEN 0 ELSE e
  ELSE LET e == SkipIn(ch, i + 1, Digit \cup {"."})
       IN IF At(ch, e) \notin {"e", "E"} THEN e
          ELSE LET s == IF At(ch, e + 1) \in {"+", "-"} THEN e + 2 ELSE e + 1
                   f == SkipIn(ch, s, Digit)
               IN IF f = s /\ s > Len(ch) THEN 0 ELSE f

Op3 == {"..."}
Op2 == {"..", "==", "~=", "<=", ">=", "<<", ">>", "//", "::"}
Op1 == {"+","-","*","/","%","^","#","&","~","|","<",">","=","(",")","{","}","[","]",";",":",",","."}

LexInit == [i |-> 1, T |-> <<>>, G |-> <<>>, g |-> <<>>, ok |-> TRUE, done |-> FALSE]

\* text metrics: nl: contains a line break, head: characters before the first, tail: characters after the last line break
Meas(s) ==
  LET step(m, c) == IF c = "\n" THEN [nl |-> TRUE, head |-> m.head, tail |-> 0]
                    ELSE [nl |-> m.nl, head |-> IF m.nl THEN m.head ELSE m.head + 1, tail |-> m.tail + 1]
  IN FoldLeft(step, [nl |-> FALSE, head |-> 0, tail |-> 0], Chars(s))
Flat(s) == [nl |-> FALSE, head |-> Len(s), tail |-> Len(s)]

Token(st, src, k, b, multi) ==
  LET s == SubSeq(src, st.i, b - 1)
      m == IF multi THEN Meas(s) ELSE Flat(s)
  IN [st EXCEPT !.T = Append(@, [k |-> IF k = "op" THEN s ELSE k, s |-> s, a |-> st.i, b |-> b, m |-> m]),
                !.G = Append(@, st.g), !.g = <<>>, !.i = b]

LexErr(st) == [st EXCEPT !.ok = FALSE, !.done = TRUE]

LexStep(ch, src, st0) ==
  LET i == SkipIn(ch, st0.i, Space)
      st == [st0 EXCEPT !.i = i]
      c == At(ch, i)
      c2 == At(ch, i + 1)
  IN CASE i > Len(ch) -> [st EXCEPT !.G = Append(@, st.g), !.done = TRUE]
     [] c = "\n" -> [st EXCEPT !.g = Append(@, [k |-> "nl", a |-> i, b |-> i + 1]), !.i = i + 1]
     [] c \in Alpha ->
          LET b == SkipIn(ch, i, AlNum)
              s == SubSeq(src, i, b - 1)
          IN Token(st, src, IF s \in Keyword THEN "op" ELSE "name", b, FALSE)
     [] c \in Digit \/ (c = "." /\ c2 \in Digit) ->
          LET b == NumEnd(ch, i) IN IF b = 0 THEN LexErr(st) ELSE Token(st, src, "num", b, FALSE)
     [] c \in {"\"", "'"} ->
          LET q == FindQuote(ch, i + 1, c)
          IN IF q = 0 THEN LexErr(st) ELSE Token(st, src, IF c = "'" THEN "chr" ELSE "str", q + 1, TRUE)
     [] c = "-" /\ c2 = "-" ->
          LET lo == LongOpen(ch, i + 2)
          IN IF lo.lv # NoLevel
             THEN LET e == FindClose(ch, lo.o, lo.lv)
                  IN IF e = 0 THEN LexErr(st)
                     ELSE [st EXCEPT !.i = e + lo.lv + 2,
                             !.g = Append(@, [k |-> "block", a |-> i, b |-> e + lo.lv + 2, lv |-> lo.lv, x |-> SubSeq(src, lo.o, e - 1)])]
             ELSE LET e == Find(ch, i, "\n")
                      b == IF e > Len(ch) THEN e ELSE e + 1
                  IN [st EXCEPT !.i = b, !.g = Append(@, [k |-> "line", a |-> i, b |-> b, x |-> SubSeq(src, i + 2, e - 1)])]
     [] c = "#" /\ c2 = "!" ->
          LET e == Find(ch, i, "\n")
              b == IF e > Len(ch) THEN e ELSE e + 1
              t == [k |-> "#!", s |-> SubSeq(src, i, e - 1) \o "\n", a |-> i, b |-> b, m |-> [nl |-> TRUE, head |-> e - i, tail |-> 0]]
          IN [st EXCEPT !.T = Append(@, t), !.G = Append(@, st.g), !.g = <<>>, !.i = b]
     [] c = "[" /\ c2 \in {"[", "="} ->
          LET lo == LongOpen(ch, i)
          IN IF lo.lv = NoLevel THEN LexErr(st)
             ELSE LET e == FindClose(ch, lo.o, lo.lv)
                  IN IF e = 0 THEN LexErr(st) ELSE Token(st, src, "lstr", e + lo.lv + 2, TRUE)
     [] c = "." /\ c2 = "." /\ At(ch, i + 2) = "." -> Token(st, src, "op", i + 3, FALSE)
     [] (c \o c2) \in Op2 -> Token(st, src, "op", i + 2, FALSE)
     [] c \in Op1 -> Token(st, src, "op", i + 1, FALSE)
     [] OTHER -> LexErr(st)

\* the closure of LexStep: one step at every position the lexer stops at, and one at the end
Lex(src) ==
  LET ch == Chars(src)
      step(st, p) == IF st.done \/ p < st.i THEN st ELSE LexStep(ch, src, st)
  IN FoldLeft(step, LexInit, [p \in 1..(Len(src) + 1) |-> p])
=============================================================================
