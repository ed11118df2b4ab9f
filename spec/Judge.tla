------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Conformance: the recorded runs of the real luafmt, one case after the   *)
(* other, against the specification.  Verdict(k) is <<"ok">>, <<"skip",    *)
(* reason>> (the case says nothing about the property) or <<"bad", what>>. *)
(* The cases form independent chains so that TLC judges them in parallel;  *)
(* a state is a case with its verdict, and Conforms must hold in all.      *)
(***************************************************************************)
EXTENDS Relations, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
N == Len(Trace)
Chains == 64

Fine == <<"ok">>
Pass(s) == <<"skip", s>>
Alarm(s) == <<"bad", s>>
Test(b, s) == IF b THEN Fine ELSE Alarm(s)

Cfg(r) == SetAll(NoOptions, r.opts, 1)
Layout1(r) == LayoutOptions(Cfg(r))
Spec1(r) == Predict(r.src, Cfg(r))
Accepts(src) == Parse(Lex(src)).ok

\* tokens and comments stay apart
Safe(c) == (c.rs \/ c.rsn \/ c.ran \/ c.rc) => (c.rz /\ c.hbc # "" /\ c.hac # "")

(* --- C01, C02, C06: what the output says --- *)
C01(r) ==
  IF r[1].st # "ok" THEN Pass(r[1].st)
  ELSE IF ~Safe(Layout1(r[1])) THEN Pass("unsafe")
  ELSE Test(SameTokens(Lex(r[1].src), Lex(r[1].out), Layout1(r[1])), "tokens")

C02(r) ==
  LET c == Layout1(r[1])
      A == Lex(r[1].src)
      B == Lex(r[1].out)
  IN IF r[1].st # "ok" THEN Pass(r[1].st)
     ELSE IF ~Safe(c) THEN Pass("unsafe")
     ELSE IF ~A.ok THEN Pass("lex")
     ELSE IF ~SameTokens(A, B, c) /\ B.ok /\ Len(CommentGroups(A)) # Len(CommentGroups(B)) THEN Pass("tokens")
     ELSE Test(SameComments(A, B, c), "comments")

C03(r) == IF r[1].st # "ok" THEN Pass(r[1].st) ELSE Test(Identity(r[1].src, r[1].out), "identity")

(* --- C04, C05: what is accepted --- *)
\* listed: a known finding, in whose favour the rules make an exception
C04(r, listed) == IF r[1].st = "ok" THEN Fine ELSE IF listed \/ Accepts(r[1].src) THEN Alarm(r[1].st) ELSE Pass("not a program")
C05(r) == IF r[1].st = "ok" /\ ~Accepts(r[1].src) THEN Alarm("accepted") ELSE IF r[1].st = "ok" THEN Pass("program") ELSE Fine

C06(r) ==
  LET A == Lex(r[1].src)
      B == Lex(r[1].out)
      c == Layout1(r[1])
  IN IF r[1].st # "ok" THEN Pass(r[1].st)
     ELSE IF ~Safe(c) THEN Pass("unsafe")
     ELSE IF ~B.ok THEN Alarm("output is no Lua")
     ELSE IF Len(Literals(A)) # Len(Literals(B)) /\ Len(A.T) # Len(B.T) /\ ~SameTokens(A, B, c) THEN Alarm("literals lost")
     ELSE Test(SameLiterals(A, B, c), "literals")

(* --- C07: the second run changes nothing, where the rules say so --- *)
C07(r, listed) ==
  LET once == Spec1(r[1])
      t1 == OutputText(once.o)
      twice == Predict(t1, Cfg(r[1]))
  IN IF r[1].st # "ok" THEN Pass(r[1].st)
     ELSE IF r[2].st = "ok" /\ r[2].out = r[1].out THEN Fine
     ELSE IF ~once.ok \/ ~twice.ok THEN Alarm("second run")
     ELSE IF OutputText(twice.o) # t1 /\ ~listed THEN Pass("no fixed point by the rules")
     ELSE Alarm("second run")

(* --- C08, C09: line ranges --- *)
LR(r) == LET b == RangeOf(Cfg(r).line_range) IN b
\* the selected statements are written as in the full run, unless the rules themselves write them differently
InTheRange(r) ==
  LET L == Lex(r[1].src)
      P == Parse(L)
      p1 == Spec1(r[1])
      p2 == Spec1(r[2])
  IN \/ r[1].st # "ok" \/ r[2].st # "ok" \/ ~P.ok
     \/ SelectedAsInFull(r[1].src, L, P, LR(r[1]), r[1].out, r[2].out)
     \/ ~SelectedAsInFull(r[1].src, L, P, LR(r[1]), OutputText(p1.o), OutputText(p2.o))

C08(r) ==
  LET L == Lex(r[1].src)
      P == Parse(L)
  IN IF r[1].st # "ok" \/ ~P.ok THEN Pass(r[1].st)
     ELSE IF ~OutsideUntouched(r[1].src, L, P, LR(r[1]), r[1].out) THEN Alarm("outside")
     ELSE IF ~GapsAs(r[1].src, L, P, LR(r[1]), r[1].out, OutputText(Spec1(r[1]).o)) THEN Alarm("gaps")
     \* what an invalid bound selects
     ELSE IF InvalidBound(r[1].src, LR(r[1])) THEN Test(InTheRange(r), "bounds")
     ELSE Fine
C09(r) ==
  LET L == Lex(r[1].src)
      P == Parse(L)
  IN IF r[1].st # "ok" \/ r[2].st # "ok" \/ ~P.ok THEN Pass(r[1].st)
     ELSE IF Selected(r[1].src, L, Statements(P), LR(r[1])) = {} THEN Pass("nothing selected")
     ELSE IF SelectedAsInFull(r[1].src, L, P, LR(r[1]), r[1].out, r[2].out) THEN Fine
     ELSE IF InTheRange(r) THEN Pass("by the rules")
     ELSE Alarm("selected")

(* --- C10 .. C16: the layout rules --- *)
BlockTags == {"stat", "do", "while", "repeat", "for", "func", "if", "eof", "bof"}
TableTags == {"table", "table0", "field", "fieldsep"}
ExprTags == {"bin", "suffix", "exps", "args", "return", "=", "kw", "names", ",", "unary", "paren", "index", "member"}
\* breaks: differences that involve line breaks count whatever their place
ByTheRules(r, tags, breaks) ==
  LET p == Spec1(r[1])
      d == Differences(p.o, r[1].out)
  IN IF r[1].st # "ok" THEN IF p.ok THEN Alarm(r[1].st) ELSE Pass("not a program")
     ELSE IF ~p.ok THEN Pass("outside the grammar")
     ELSE IF OutputText(p.o) = r[1].out THEN Fine
     ELSE IF "tokens" \in d.tags \/ d.tags \cap tags # {} \/ (breaks /\ d.breaks) THEN Alarm(d.tags)
     ELSE Pass("other construct")
AnyTag == BlockTags \cup TableTags \cup ExprTags \cup {"key", "field=", "fname", "params", "label", "return;", ""}

(* --- C14: spaces in the input do not matter --- *)
C14(r) ==
  IF Len(r) = 1 THEN ByTheRules(r, AnyTag, TRUE)
  ELSE IF r[1].st # "ok" \/ r[2].st # "ok" THEN IF r[1].st = r[2].st THEN Pass(r[1].st) ELSE Alarm("status")
  ELSE Test(r[1].out = r[2].out, "spaces matter")

(* --- C23 --- *)
C23(r) == IF \E k \in 1..Len(r) : r[k].st \in {"panic", "timeout", "abort"} THEN Alarm(r[1].st) ELSE Fine

(* --- C24 --- *)
MaxLine(s) ==
  LET step(m, ch) == IF ch = "\n" THEN [cur |-> 0, max |-> m.max]
                     ELSE [cur |-> m.cur + 1, max |-> IF m.cur + 1 > m.max THEN m.cur + 1 ELSE m.max]
  IN FoldLeft(step, [cur |-> 0, max |-> 0], Chars(s)).max
Shifted(s, ind) ==
  LET L == Lex(s)
      inTok(p) == \E j \in 1..Len(L.T) : L.T[j].a < p /\ p < L.T[j].b
      step(acc, p) == acc \o SubSeq(s, p, p) \o (IF SubSeq(s, p, p) = "\n" /\ p < Len(s) /\ SubSeq(s, p + 1, p + 1) # "\n" /\ ~inTok(p) THEN ind ELSE "")
  IN ind \o FoldLeft(step, "", Range1(Len(s)))
Joined(r) == r[1].out \o r[2].out \o r[3].out
C24(r) ==
  LET ind == Text(Cfg(r[1]), "indentation_string")
  IN IF \E k \in 1..3 : r[k].st # "ok" THEN Pass("part")
     ELSE IF \E k \in 1..3 : MaxLine(r[k].out) > 95 THEN Pass("wide")
     ELSE IF ~Accepts(r[4].src) \/ ~Accepts(r[5].src) THEN Pass("not a program")
     ELSE IF r[4].st # "ok" \/ r[5].st # "ok" THEN Alarm("refused")
     ELSE IF r[4].out # Joined(r) THEN Alarm("neighbours")
     ELSE Test(r[5].out = "do\n" \o Shifted(r[2].out, ind) \o "end\n", "nested")

Verdict(k) ==
  LET r == Trace[k].runs
  IN CASE Prop = "C01" -> C01(r) [] Prop = "C02" -> C02(r) [] Prop = "C03" -> C03(r) [] Prop = "C04" -> C04(r, Trace[k].fam = 0)
       [] Prop = "C05" -> C05(r) [] Prop = "C06" -> C06(r) [] Prop = "C07" -> C07(r, Trace[k].fam = 0) [] Prop = "C08" -> C08(r)
       [] Prop = "C09" -> C09(r)
       [] Prop = "C10" -> ByTheRules(r, BlockTags, TRUE)
       [] Prop = "C11" -> ByTheRules(r, TableTags, TRUE)
       [] Prop = "C12" -> ByTheRules(r, ExprTags, TRUE)
       [] Prop \in {"C13", "C15", "C16", "C17"} -> ByTheRules(r, AnyTag, TRUE)
       [] Prop = "C14" -> C14(r)
       [] Prop = "C23" -> C23(r)
       [] Prop = "C24" -> C24(r)

VARIABLES i, v

\* printed for the runner: every case that is not simply ok
Report(k, w) == IF w[1] = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", k, w[1], w[2]>>)

Init == i \in 1..(IF N < Chains THEN N ELSE Chains) /\ v = Verdict(i) /\ Report(i, v)
Next == i + Chains <= N /\ i' = i + Chains /\ v' = Verdict(i') /\ Report(i', v')
Spec == Init /\ [][Next]_<<i, v>>
=============================================================================
