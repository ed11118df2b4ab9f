-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The generator of cases: a transition system that derives a program,     *)
(* fills its gaps, configures luafmt and emits the case.  Exhaustive       *)
(* families go through                                                     *)
(*    derive -> (expand the leftmost nonterminal)* -> fill -> (an unusual  *)
(*    gap)* -> ready -> case                                               *)
(* so that TLC explores every bounded derivation, filling and              *)
(* configuration of the family; random families draw one case per seed.    *)
(* A case is [fam, kind, runs], a run [src, of, opts]: luafmt formats src, *)
(* or what run number `of` printed.  Kinds:                                *)
(*   one      one run                                                      *)
(*   again    a run and a run on its output                                *)
(*   range    with a line range, and without                               *)
(*   edge     with max_width at or next to the length of a line that the  *)
(*            layout rules make without it, or with twice that width       *)
(*   spacing  the same tokens with other blanks between them               *)
(*   parts    three statements, the file of all three, and all in a block  *)
(*   mutant   a program with one token deleted, doubled, swapped, replaced *)
(*            or inserted, or cut off                                      *)
(*   cut      a program cut off somewhere                                  *)
(***************************************************************************)
EXTENDS Families, Layout, Json, IOUtils, TLCExt

Prop == IOEnv.PROP
Thorough == IOEnv.VERIF_TIER = "thorough"
BaseSeed == ToInt(IOEnv.VERIF_SEED) % 2000
Fams == Family(Prop, Thorough)

\* a positive number that depends on v and the seed
Hash(v) == LET h == TLCFP(<<v, BaseSeed>>) IN Turn(1 + ((IF h < 0 THEN -(h + 1) ELSE h) % 2000000000))
Kept(v, m) == IF m = 1 THEN TRUE ELSE Hash(v) % m = 0

Run(src, opts) == [src |-> src, of |-> 0, opts |-> opts]
RunOf(k, opts) == [src |-> "", of |-> k, opts |-> opts]

(* --- mutations of a token sequence --- *)
Inserted == <<"end", "(", ")", ",", "=", "x", "1", "do", "{", "}", "then", "local", ".", ":", "..", "not", "]", "'s'", "function", "else", ";", "::", "if", "return", "until", "for", "in">>
Cut(ts, j) == SubSeq(ts, 1, j - 1) \o SubSeq(ts, j + 1, Len(ts))
Put(ts, j, t) == SubSeq(ts, 1, j - 1) \o <<t>> \o SubSeq(ts, j, Len(ts))
Swap(ts, j) == SubSeq(ts, 1, j - 1) \o <<ts[j + 1], ts[j]>> \o SubSeq(ts, j + 2, Len(ts))
Broken == <<"'", "\"", "[[", "--[[", "[=[ ]]", "\\", "@", "$", "!", "'a\\", "0x", "1e", "[=", "?", "`", "--[==[ ]=]", "&&", "!=", "\\n",
            Odd.nul, Odd.sub, Odd.bom, Odd.nbsp, Odd.nel, Odd.ls>>
\* all mutations of ts; some of them are programs again
Mutations(ts) ==
  {Cut(ts, j) : j \in 1..Len(ts)} \cup {Put(ts, j, ts[j]) : j \in 1..Len(ts)} \cup {Swap(ts, j) : j \in 1..(Len(ts) - 1)}
  \cup {SubSeq(ts, 1, j) : j \in 1..(Len(ts) - 1)} \cup {SubSeq(ts, j, Len(ts)) : j \in 2..Len(ts)}
  \cup UNION {{Put(ts, j, Inserted[k]) : k \in 1..Len(Inserted)} : j \in 1..(Len(ts) + 1)}
  \cup UNION {{Put(ts, j, Broken[k]) : k \in 1..Len(Broken)} : j \in 1..(Len(ts) + 1)}
Mutate(ts, x) ==
  LET n == Len(ts)
      j == Pick(Turn(x), n)
      y == Turn(Turn(x))
  IN CASE n = 0 -> <<"end">>
       [] OTHER -> CASE Pick(x, 7) = 1 -> Cut(ts, j)
                     [] Pick(x, 7) = 2 -> Put(ts, j, ts[j])
                     [] Pick(x, 7) = 3 -> IF j < n THEN Swap(ts, j) ELSE Cut(ts, j)
                     [] Pick(x, 7) = 4 -> Put(ts, j, Inserted[Pick(y, Len(Inserted))])
                     [] Pick(x, 7) = 5 -> [ts EXCEPT ![j] = Inserted[Pick(y, Len(Inserted))]]
                     [] Pick(x, 7) = 6 -> Put(ts, j, ts[Pick(y, n)])
                     [] OTHER -> Put(ts, j, Broken[Pick(y, Len(Broken))])

\* tokens ts with blanks between all of them
Spaced(ts) == FoldLeft(LAMBDA acc, t : acc \o t \o " ", "", ts)

(* --- line ranges --- *)
LineCount(src) == 1 + Len(SelectSeq(Chars(src), LAMBDA c : c = "\n"))
RangeText(a, b) == ToString(a) \o ":" \o ToString(b)
RandomRange(src, x) ==
  LET n == LineCount(src)
      a == Pick(Turn(x), n + 2) - 1
      b == a + Pick(Turn(Turn(x)), n + 2) - 1
  IN IF Chance(x, 15) THEN RangeText(b, a) ELSE RangeText(a, IF Chance(Turn(x), 80) /\ b > n /\ a <= n THEN a ELSE b)

LineLengths(s) ==
  FoldLeft(LAMBDA n, c : IF c = "\n" THEN Append(n, 0) ELSE [n EXCEPT ![Len(n)] = @ + 1], <<0>>, Chars(s))

Neighbours == <<"x = {}", "local function f(a) g() end", "x = {a, {b = 1}}", "if a then f() elseif b then else g() end", "f(function() return 1 end)", "a.b:c(1, {2})[3] = x", "for i = 1, 2 do f() end",
                "x = function(a, b) return function() end end", "x, y = {1}, a + b", "repeat local a until a.b()", "::l::", "while a do break end", "function a.b:c(...) return ... end", "x = {function() end, [1] = 2}">>

\* the cases of kind with source src of tokens ts, configuration cfg and random number x
CasesOf(kind, ts, src, cfg, x) ==
  CASE kind = "one" -> {<<Run(src, cfg)>>}
    [] kind = "again" -> {<<Run(src, cfg), RunOf(1, cfg)>>}
    [] kind = "range" -> {<<Run(src, cfg \o << <<"line_range", RandomRange(src, x)>> >>), Run(src, cfg)>>}
    [] kind = "edge" ->
         LET wide(w) == Predict(src, SetAll(NoOptions, cfg \o << <<"max_width", w>> >>, 1))
             p == wide(IF Chance(x, 60) THEN "1000" ELSE ToString(10 + Pick(Turn(x), 40)))
             n == LineLengths(OutputText(p.o))
             w == n[Pick(Turn(Turn(x)), Len(n))]
         IN IF ~p.ok THEN {} ELSE {<<Run(src, cfg \o << <<"max_width", ToString(w + d)>> >>)>> : d \in {0, 1}}
    [] kind = "spacing" -> {<<Run(Source0(ts, RandomSpaces(ts, x)), cfg), Run(Spaced(ts), cfg)>>}
    \* kind parts: between two neighbours that open and close what a writer keeps count of
    [] kind = "parts" ->
         LET a == Neighbours[Pick(x, Len(Neighbours))]
             b == Neighbours[Pick(Turn(x), Len(Neighbours))]
         IN {<<Run(a, cfg), Run(src, cfg), Run(b, cfg), Run(a \o "\n" \o src \o "\n" \o b, cfg), Run("do\n" \o src \o "\nend", cfg)>>}
    [] kind = "cut" -> {<<Run(SubSeq(src, 1, Pick(x, Len(src) + 1) - 1), cfg)>>}

Program(A, depth, x) == RandomTokens(A, depth, x)

\* one random case, {} if the derivation gets too long
Random(f, i, j) ==
  LET x == Seed(BaseSeed * 64 + i, j)
      ts == Program(f.start, f.depth, Turn(x + 1))
      y == Turn(Turn(x + 2))
      src == RandomSource(ts, Turn(y), f.percent, f.cpercent)
      cfg == RandomCfg(f.mode, Turn(y + 3))
      part(k) == Program(f.start, f.depth, Turn(Seed(BaseSeed * 64 + i, j * 3 + k)))
      p1 == Spaced(part(1))
      p2 == Spaced(part(2))
      p3 == Spaced(part(3))
  IN IF f.kind = "parts"
     THEN IF p1 = "" \/ p2 = "" \/ p3 = "" THEN {}
          ELSE {<<Run(p1, cfg), Run(p2, cfg), Run(p3, cfg), Run(p1 \o "\n" \o p2 \o "\n" \o p3, cfg), Run("do\n" \o p2 \o "\nend", cfg)>>}
     ELSE IF ts = <<>> /\ f.start # "Chunk" THEN {}
     ELSE IF f.kind = "mutant"
     THEN LET m == Mutate(ts, Turn(y + 7)) IN {<<Run(IF Chance(y, 80) THEN Spaced(m) ELSE RandomSource(m, y, f.percent, f.cpercent), cfg)>>}
     ELSE CasesOf(f.kind, ts, src, cfg, Turn(Turn(y + 5)))

(* --- the transition system --- *)
VARIABLE st

\* a line of its own on the standard output
Write(f, runs) == PrintT(ToJson([fam |-> f, kind |-> Fams[f].kind, runs |-> runs]))
Emit1(f, runs) == st' = [ph |-> "case", f |-> f, runs |-> runs] /\ Write(f, runs)

Start(f, w) == LET d == Settle(w, <<>>, Fams[f].dev) IN [ph |-> "derive", f |-> f, todo |-> d.todo, toks |-> d.toks, dev |-> Fams[f].dev]

Init ==
  \E f \in 1..Len(Fams) :
    \/ Fams[f].gen = "exh" /\ \E w \in Fams[f].starts : st = Start(f, w)
    \/ Fams[f].gen \in {"rnd", "soup"} /\ \E j \in 1..Fams[f].n : st = [ph |-> "seed", f |-> f, j |-> j]
    \/ Fams[f].gen = "txt" /\ \E s \in Texts(Fams[f].name) : st = [ph |-> "text", f |-> f, src |-> s]

\* expand the leftmost nonterminal
Derive ==
  /\ st.ph = "derive" /\ st.todo # <<>>
  /\ LET A == Head(st.todo)
     IN \E k \in 1..Len(Core[A]) :
          LET dev == IF k = 1 THEN st.dev ELSE st.dev - 1
              d == Settle(Core[A][k] \o Tail(st.todo), st.toks, dev)
          IN /\ dev >= 0
             /\ st' = [st EXCEPT !.todo = d.todo, !.toks = d.toks, !.dev = dev]

\* the program is derived: choose the usual gap
Fill ==
  /\ st.ph = "derive" /\ st.todo = <<>>
  /\ Kept(st.toks, Fams[st.f].pk)
  /\ IF Fams[st.f].kind = "mutant"
     THEN st' = [ph |-> "mutate", f |-> st.f, toks |-> st.toks]
     ELSE \E b \in Fams[st.f].bases :
            st' = [ph |-> "fill", f |-> st.f, toks |-> st.toks, k |-> 0, left |-> Fams[st.f].fdev,
                   g |-> [j \in 1..(Len(st.toks) + 1) |-> IF j = 1 THEN "" ELSE b]]

MutateOne ==
  /\ st.ph = "mutate"
  /\ \E m \in Mutations(st.toks) : Kept(m, Fams[st.f].gk) /\ Emit1(st.f, <<Run(Spaced(m), NoCfg)>>)

\* an unusual gap behind the ones chosen so far
FillGap ==
  /\ st.ph = "fill" /\ st.left > 0
  /\ \E k \in (st.k + 1)..Len(st.g) : \E x \in Fams[st.f].fillers :
       /\ Kept(<<st.toks, k, x>>, Fams[st.f].gk)
       /\ st' = [st EXCEPT !.k = k, !.left = @ - 1, !.g[k] = SafeFill(st.toks, k, x)]

\* all gaps are chosen: configure and emit
Configure ==
  /\ st.ph = "fill"
  /\ LET f == Fams[st.f]
         src == Source0(st.toks, st.g)
         x == Hash(src)
     IN \E cfg \in f.cfgs :
          /\ Kept(<<src, cfg>>, f.ck)
          /\ \E runs \in CasesOf(f.kind, st.toks, src, cfg, Hash(<<src, cfg, "x">>)) : Emit1(st.f, runs)

Draw ==
  /\ st.ph = "seed"
  /\ \E runs \in IF Fams[st.f].gen = "soup"
                 THEN LET x == Seed(BaseSeed * 64 + st.f, st.j) IN {<<Run(Soup(x), RandomCfg(Fams[st.f].mode, Turn(x)))>>}
                 ELSE Random(Fams[st.f], st.f, st.j) : Emit1(st.f, runs)

Give ==
  /\ st.ph = "text"
  /\ \E cfg \in Fams[st.f].cfgs :
       /\ Kept(<<st.src, cfg>>, Fams[st.f].ck)
       /\ \E runs \in CasesOf(Fams[st.f].kind, <<>>, st.src, cfg, Hash(<<st.src, cfg, "x">>)) : Emit1(st.f, runs)

Next == Derive \/ Fill \/ FillGap \/ MutateOne \/ Configure \/ Draw \/ Give
Spec == Init /\ [][Next]_st
=============================================================================
