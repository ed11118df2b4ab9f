------------------------------- MODULE CliGen -------------------------------
(***************************************************************************)
(* The generator of program runs: a transition system that builds a        *)
(* directory tree entry by entry, writes a configuration file statement by *)
(* statement, assembles the arguments and emits the case, with the         *)
(* formatter runs (`runs`) that its texts and configurations may call for. *)
(***************************************************************************)
EXTENDS CliFamilies, Json, IOUtils, TLCExt

Prop == IOEnv.PROP
Thorough == IOEnv.VERIF_TIER = "thorough"
BaseSeed == ToInt(IOEnv.VERIF_SEED) % 2000
Fams == Family(Prop, Thorough)

Hash(v) == LET h == TLCFP(<<v, BaseSeed>>) IN 1 + ((IF h < 0 THEN -(h + 1) ELSE h) % 2000000000)
Kept(v, m) == IF m = 1 THEN TRUE ELSE (Hash(v) \div 3) % m = 0

\* a tree with one more entry, which replaces the one of the same path
Put(tree, e) ==
  LET js == {j \in 1..Len(tree) : tree[j].p = e.p}
  IN IF js = {} THEN Append(tree, e) ELSE [tree EXCEPT ![CHOOSE j \in js : TRUE] = e]
\* nothing but directories above an entry
Sound(tree) == \A i, j \in 1..Len(tree) : HasPrefix(tree[j].p, tree[i].p \o "/") => tree[i].t \in DirKinds

Readable(e) == e.t \in {"file", "nowrite"}
ConfigTexts(tree) == {tree[j].c : j \in {i \in 1..Len(tree) : Readable(tree[i])}}
\* the texts and the configurations a run can bring together
RefsOf(tree, argv, in) ==
  LET cli == CliAssigns(argv)
      names == {j \in 1..Len(tree) : Readable(tree[j]) /\ (IsConfigName(Last(Names(tree[j].p))) \/ tree[j].p = "cfg")}
      cfgs == IF ~HasEmptyFormat(SetAll(NoOptions, cli, 1)) \/ PathArgs(argv) = <<>> THEN {cli}
              ELSE {cli \o ConfigOf(tree[j].c).as : j \in {i \in names : ConfigOf(tree[i].c).ok}}
      texts == IF PathArgs(argv) = <<>> THEN {in} ELSE ConfigTexts(tree)
      first == SetToSeq({[src |-> t, of |-> 0, opts |-> c] : t \in texts, c \in cfgs})
      again == IF Has(argv, "i") /\ Len(PathArgs(argv)) > 0 THEN SetToSeq({[src |-> "", of |-> j, opts |-> c] : j \in 1..Len(first), c \in cfgs}) ELSE <<>>
      third == IF Has(argv, "i") /\ (Len(PathArgs(argv)) > 2 \/ Has(argv, "r"))
               THEN SetToSeq({[src |-> "", of |-> Len(first) + j, opts |-> c] : j \in 1..Len(again), c \in cfgs}) ELSE <<>>
  IN first \o again \o third

\* pseudo-random choices, all of them if fan is 0
ArgSeq == [f \in 1..Len(Fams) |-> SetToSeq(Fams[f].args)]
StmtSeq == [f \in 1..Len(Fams) |-> SetToSeq(Fams[f].stmts)]
Branches(seq, fan, v) ==
  IF fan = 0 \/ fan >= Len(seq) THEN ToSet(seq)
  ELSE LET h == Hash(v) % 100000 IN {seq[1 + ((h + j * 7919) % Len(seq))] : j \in 1..fan}

VARIABLE st

\* directories with links to each other may be seen many times; three passes over a file are the most that refs cover
Init == \E f \in 1..Len(Fams) : \E t \in Fams[f].trees : st = [ph |-> "tree", f |-> f, tree |-> t, j |-> 0, left |-> Fams[f].nadd]

AddEntry ==
  /\ st.ph = "tree" /\ st.left > 0
  /\ \E j \in (st.j + 1)..Len(Fams[st.f].pool) :
       st' = [st EXCEPT !.tree = Put(st.tree, Fams[st.f].pool[j]), !.j = j, !.left = @ - 1]

\* begin the configuration file, if there is one to write
BeginConfig ==
  /\ st.ph = "tree" /\ Sound(st.tree) /\ Kept(st.tree, Fams[st.f].tk)
  /\ \E h \in Fams[st.f].heads : st' = [ph |-> "config", f |-> st.f, tree |-> st.tree, text |-> h, left |-> Fams[st.f].nst]

AddStatement ==
  /\ st.ph = "config" /\ st.left > 0
  /\ \E x \in Branches(StmtSeq[st.f], IF st.left = Fams[st.f].nst THEN 0 ELSE Fams[st.f].fan, st.text), y \in Fams[st.f].seps : st' = [st EXCEPT !.text = @ \o x \o y, !.left = @ - 1]

BeginArgs ==
  /\ st.ph = "config" /\ Kept(st.text, Fams[st.f].sk)
  /\ \E t \in Fams[st.f].tails, p \in Fams[st.f].pre :
       st' = [ph |-> "args", f |-> st.f, argv |-> p, n |-> 0,
              tree |-> IF Fams[st.f].at = "" THEN st.tree ELSE Put(st.tree, File(Fams[st.f].at, st.text \o t))]

AddArg ==
  /\ st.ph = "args" /\ st.n < Fams[st.f].nargs
  /\ \E a \in Branches(ArgSeq[st.f], IF st.n = 0 THEN 0 ELSE Fams[st.f].fan, st.argv) : st' = [st EXCEPT !.argv = Append(@, a), !.n = @ + 1]

Emit ==
  /\ st.ph = "args" /\ st.n >= Fams[st.f].min
  /\ \E p \in Fams[st.f].post, in \in Fams[st.f].ins, c \in Fams[st.f].cwds :
       LET argv == st.argv \o p
       IN /\ Kept(<<st.tree, argv, in>>, Fams[st.f].ak)
          /\ IF c = "" THEN TRUE ELSE Names(c) \in DOMAIN TreeOf(st.tree) /\ TreeOf(st.tree)[Names(c)].t = "dir"
          /\ st' = [ph |-> "case", f |-> st.f, tree |-> st.tree, argv |-> argv, in |-> in, cwd |-> c]
          /\ PrintT(ToJson([fam |-> st.f, kind |-> "cli", tree |-> st.tree, cwd |-> c, argv |-> argv, in |-> in.in, inbad |-> in.bad,
                            light |-> Fams[st.f].light, runs |-> IF Fams[st.f].light THEN <<>> ELSE RefsOf(st.tree, argv, in.in)]))

Next == AddEntry \/ BeginConfig \/ AddStatement \/ BeginArgs \/ AddArg \/ Emit
Spec == Init /\ [][Next]_st
=============================================================================
