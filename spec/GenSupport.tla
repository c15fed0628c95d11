----------------------------- MODULE GenSupport -----------------------------
(* Histories of the option store and of the generator, and comments to lay out. *)
EXTENDS Support, TLC, Json
CONSTANTS Mode, Depth
VARIABLES x, g          \* the history so far, and the machine's state after it

R(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1
SeqOf(n, G(_)) == LET RECURSIVE upto(_)
                     upto(i) == IF i = 0 THEN <<>> ELSE Append(upto(i - 1), G(i))
                 IN upto(n)
Keys == {"a", "b", "c", "force-overwrite"}
Leaves == {VStr("s"), VStr(""), VStr("false"), VStr("true"), VBool(TRUE), VBool(FALSE), VNum("0"), VNum("7"), VNum("-3.5"), VNum("2.25"), VNum("4294967296"), VNum("70000"), VNum("-2147483648"), VNum("9007199254740991"), VStr("False"), VStr("FALSE"), VStr("0"), VStr("no"), VStr("x y\n<b>&\"q\""), VStr("12"), VArr(<<VObj(<<Pair("a", VStr("z"))>>), VArr(<<VNum("2")>>)>>),
           VArr(<<>>), VArr(<<VStr("x"), VStr("y")>>), VArr(<<VStr("x"), VNum("1")>>), VNull, VObj(<<>>)}
RECURSIVE RandVal(_)
RandVal(d) == IF d = 0 \/ Chance(2) THEN R(Leaves)
              ELSE VObj(SeqOf(R(0..2), LAMBDA i : Pair(IF i = 1 THEN "a" ELSE "b", RandVal(d - 1))))
RECURSIVE Chain(_, _)
Chain(keys, v) == IF keys = <<>> THEN v ELSE VObj(<<Pair(keys[1], Chain(Tail(keys), v))>> \o (IF Chance(3) THEN <<Pair("c", R(Leaves))>> ELSE <<>>))
LongPath(u) == SeqOf(R(3..8), LAMBDA i : IF Chance(5) THEN R(Keys) ELSE "a")
Path(u) == IF Chance(3) THEN LongPath(0) ELSE SeqOf(IF Chance(12) THEN 0 ELSE R(1..3), LAMBDA i : R(Keys))
NonEmptyPath(u) == SeqOf(R(1..2), LAMBDA i : R({"a", "b"}))
StoreOp(u) ==
    LET k == R(1..24) IN
    CASE k = 1 -> [o |-> "put", key |-> "a", v |-> Chain(SeqOf(R(2..8), LAMBDA i : IF Chance(8) THEN "b" ELSE "a"), R(Leaves)), path |-> <<>>]
      [] k = 2 /\ Chance(2) -> [o |-> "putas", key |-> R(Keys), v |-> VNum(R({"0", "7", "-3", "127", "128", "40000", "70000", "2147483647", "-2147483648"})), t |-> R({"int", "int32", "dec", "decptr"}), path |-> <<>>]
      [] k = 2 /\ Chance(3) -> [o |-> "putas", key |-> R(Keys), v |-> VNum(R({"0.1", "-2.50", "12345678901.5", "1e2"})), t |-> R({"dec", "decptr"}), path |-> <<>>]
      [] k = 2 /\ Chance(2) -> [o |-> "putas", key |-> R(Keys), v |-> VStr(R({"", "s", "false", "x y"})), t |-> "ptr", path |-> <<>>]
      [] k = 9 /\ Chance(2) -> [o |-> "file", t |-> R({".json", ".yaml", ".conf"}), path |-> <<>>]
      [] k = 12 /\ Chance(2) -> [o |-> R({"mstr", "mbool", "mint", "mint64", "marray", "mmap", "mget", "mstrs", "mstrs", "mdec"}), path |-> <<R(Keys)>>]
      [] k \in 1..6 -> [o |-> "put", key |-> R(Keys), v |-> RandVal(3), path |-> <<>>]
      [] k \in 7..8 -> [o |-> "putin", key |-> R(Keys), v |-> RandVal(1), path |-> NonEmptyPath(0)]
      [] k = 9 -> [o |-> R({"isnil", "json"}), path |-> <<>>]
      [] k = 10 -> IF Chance(3) THEN [o |-> "load", t |-> R({"", "", "unmarshal", "as", ".json", ".yaml"}), v |-> R({VNull, VObj(<<>>), VObj(<<Pair("a", VObj(<<Pair("b", VNum("1.5"))>>))>>), VObj(<<Pair("a", Chain(<<"a", "b", "a", "a">>, R(Leaves)))>>)}), path |-> <<>>]
                   ELSE [o |-> "json", path |-> <<>>]
      [] k = 11 -> [o |-> "cfgbool", path |-> <<R(Keys)>>, d |-> Chance(2)]
      [] OTHER -> [o |-> R({"get", "get", "has", "str", "bool", "int", "int64", "float", "array", "strs", "dec", "map", "data", "cfgstr", "cfgint"}),
                   path |-> IF k < 14 THEN <<R(Keys)>> ELSE Path(0)]
FixCfg(s) == IF s.o \in {"cfgstr", "cfgint", "cfgbool"} THEN [s EXCEPT !.path = IF s.path = <<>> THEN <<"a">> ELSE <<s.path[1]>>] ELSE s
StoreCase(u) == [op |-> "store.run", in |-> [steps |-> SeqOf(R(4..16), LAMBDA i : FixCfg(StoreOp(0)))]]

GenOps == { [o |-> "begin", s |-> "", p |-> ""], [o |-> "emit", s |-> "x", p |-> ""], [o |-> "emit", s |-> "yz\n", p |-> ""], [o |-> "end", s |-> "", p |-> ""],
            [o |-> "tmpl", s |-> "T", p |-> "", bad |-> FALSE], [o |-> "tmpl", s |-> "T", p |-> "parse", bad |-> TRUE], [o |-> "tmpl", s |-> "T", p |-> "exec", bad |-> TRUE],
            [o |-> "write", s |-> "one", p |-> "f"], [o |-> "write", s |-> "two", p |-> "f"], [o |-> "write", s |-> "", p |-> "f"], [o |-> "write", s |-> "one", p |-> "h"],
            [o |-> "write", s |-> "one", p |-> "no/f"], [o |-> "write", s |-> "one", p |-> "full"], [o |-> "write", s |-> "", p |-> "full"] }
BigGenOps == GenOps \cup { [o |-> "write", s |-> "BIG", p |-> "f"], [o |-> "emit", s |-> "BIG", p |-> ""] }
GenCase(u) == [op |-> "gen.run", in |-> [force |-> Chance(2), steps |-> SeqOf(R(5..14), LAMBDA i : IF Chance(3) THEN R(GenOps \ {s \in GenOps : s.p \in {"no/f", "full", "parse", "exec"}}) ELSE R(BigGenOps))]]

Words == {"a", "to", "the", "word", "longer", "considerably", "internationalisation", "", "x.", "//", "*"}
CommentText(u) == Join(SeqOf(R(1..14), LAMBDA i : R(Words)), IF Chance(6) THEN "\n" ELSE " ")
CommentCase(u) == [op |-> "comment.layout", in |-> [left |-> R({0, 2, 4, 8}), prefix |-> R({"// ", "//", "* ", " * ", "# "}), comment |-> CommentText(0),
                                                   max |-> R({0, 3, 8, 10, 12, 15, 20, 24, 30, 40, 80, 100}), pad |-> Chance(3)]]
None == [op |-> "none", in |-> [steps |-> <<>>]]
\* exhaustive: every history of the generator of up to Depth steps
Init == /\ x = IF Mode = "P11x" THEN [op |-> "gen.run", in |-> [force |-> FALSE, steps |-> <<>>]] ELSE None
        /\ g \in IF Mode = "P11x" THEN {Gen0(TRUE), Gen0(FALSE)} ELSE {Gen0(FALSE)}
Next == CASE Mode = "P10" -> x' = StoreCase(0) /\ UNCHANGED g
          [] Mode = "P11" -> x' = GenCase(0) /\ UNCHANGED g
          [] Mode = "P12" -> x' = CommentCase(0) /\ UNCHANGED g
          [] Mode = "P11x" -> /\ Len(x.in.steps) < Depth
                              /\ \E s \in GenOps : /\ x' = [x EXCEPT !.in.steps = Append(@, s), !.in.force = g.force]
                                                   /\ g' = GenStep(g, s)
Emit == CASE Mode = "P11x" -> Len(x.in.steps) < Depth \/ PrintT("CASE " \o ToJson(x))
          [] OTHER -> x.op = "none" \/ PrintT("CASE " \o ToJson(x))
\* an error sticks; without force-overwrite the content of a file is the first one written
Sticky == [][g.err => g'.err]_<<x, g>>
NoOverwrite == [][\A i \in 1..Len(g.files) : g.force \/ (i <= Len(g'.files) /\ g'.files[i] = g.files[i])]_<<x, g>>
=============================================================================
