----------------------------- MODULE GenExtend ------------------------------
(* Sources with directives of extensions (P35). *)
EXTENDS GenSchema, Extend, Json
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]
XName(u) == R({"state", "shape", "Test", "state_2", "types", "httpx"})
Note(u) == R({"", "", "one", "two words"})
Line0 == [k |-> "note", name |-> "", words |-> <<>>, notes |-> <<>>, trail |-> "", open |-> FALSE]
Arg(u) == R({"a", "b2", "Foo", "a", "b2", "7", "=", "bad", "type", "String"})
Ident(u) == R({"a", "b2", "Foo", "bad", "type", "a", "b2", "Foo", "a", "b2", "Foo", "7", "="})
ExtLine(exts, u) ==
    LET e == exts[R(1..Len(exts))] IN
    [Line0 EXCEPT !.k = "ext", !.name = e.name, !.trail = IF e.how = "bare" THEN "" ELSE Note(0),
                  !.words = CASE e.how = "line" -> (LET w == SeqOf(R(0..4), LAMBDA i : Arg(0)) IN IF Chance(4) THEN w ELSE Filter(w, LAMBDA a : a # "bad"))
                              [] e.how = "block" -> SeqOf(R(0..3), LAMBDA i : Ident(0)) [] OTHER -> <<>>,
                  !.notes = IF e.how = "block" THEN Some(R(0..2), {"in", "the block"}) ELSE <<>>]
TypeLine(u) == [Line0 EXCEPT !.k = "type", !.name = R({"Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh", "Ii"}), !.trail = Note(0)]
ALine(exts, u) ==
    LET k == R(1..8) IN
    CASE k <= 2 -> TypeLine(0)
      [] k = 3 -> IF Chance(12) THEN [Line0 EXCEPT !.k = "stray", !.name = R({"stat", "State", "test", "shapes", "tpye"}), !.words = R({<<>>, <<"a">>, <<"state", "a">>, <<"Aa", "String">>})]
                  ELSE [Line0 EXCEPT !.trail = R({"lead", "a note of it"})]
      [] OTHER -> ExtLine(exts, 0)
RECURSIVE NoTwice(_, _)
NoTwice(q, seen) == IF q = <<>> THEN <<>> ELSE IF q[1].k = "type" /\ q[1].name \in seen /\ ~Chance(12) THEN NoTwice(Tail(q), seen) ELSE <<q[1]>> \o NoTwice(Tail(q), seen \cup {q[1].name})
\* only the last line can be one that is not closed
LinesOf(exts, n) == LET q == SeqOf(n, LAMBDA i : ALine(exts, 0)) IN [i \in 1..Len(q) |-> [q[i] EXCEPT !.open = i = Len(q) /\ q[i].k = "ext" /\ exts[FirstIx(Named(exts, q[i].name))].how = "block" /\ Chance(4)]]
Exts(u) ==
    LET q == Some(R(1..3), {"state", "shape", "Test", "state_2", "types", "httpx"})
        e == SeqOf(Len(q), LAMBDA i : [name |-> q[i], how |-> R({"line", "line", "block", "bare"}), invalid |-> Chance(12)]) IN
    IF Chance(15) THEN Append(e, [e[1] EXCEPT !.invalid = FALSE]) ELSE e
\* the words of a line, as source
Com(t) == IF t = "" THEN "" ELSE R({" // ", " //", "   //  "}) \o t
Inside(line) ==
    LET ws == [i \in 1..Len(line.words) |-> line.words[i] \o R({" ", "\n", "\n\n    "})] ns == [i \in 1..Len(line.notes) |-> "// " \o line.notes[i] \o "\n"] IN
    R({" ", "\n", ""}) \o Join(ns, "") \o Join(ws, "") \o (IF line.open THEN "" ELSE "}")
Shown(line, exts) ==
    CASE line.k = "note" -> "//" \o R({"", " "}) \o line.trail
      [] line.k = "type" -> "type " \o line.name \o " " \o R({"String", "Int32"}) \o Com(line.trail)
      [] line.k = "stray" -> line.name \o " " \o Join(line.words, " ")
      [] line.k = "include" -> "include \"INC\"" \o Com(line.trail)
      [] OTHER -> IF exts[FirstIx(Named(exts, line.name))].how = "block"
                  THEN line.name \o " {" \o Inside(line) \o (IF line.open THEN "" ELSE Com(line.trail))
                  ELSE line.name \o " " \o Join(line.words, " ") \o Com(line.trail)
Source(lines, exts) == Join([i \in 1..Len(lines) |-> Shown(lines[i], exts) \o (IF i = Len(lines) THEN R({"", "\n"}) ELSE R({"\n", "\n", "\n\n", "\n  \n"}))], "")
ExtCase(u) ==
    LET exts == Exts(0)
        inc == NoTwice(LinesOf(exts, R(0..3)), {})
        main0 == LinesOf(exts, R(0..6))
        k == IF main0 = <<>> THEN 0 ELSE R(0..Len(main0) - 1)
        joined == IF Chance(3) THEN SubSeq(main0, 1, k) \o <<[Line0 EXCEPT !.k = "include", !.trail = Note(0)]>> \o SubSeq(main0, k + 1, Len(main0)) ELSE main0
        main == NoTwice(joined, IF Chance(3) THEN {} ELSE { inc[i].name : i \in 1..Len(inc) }) IN
    [op |-> "sadl.extend", in |-> [exts |-> exts, main |-> main, inc |-> inc, file |-> Chance(2), src |-> Source(main, exts), incsrc |-> Source(inc, exts)]]
Init == x = None
Next == x' = ExtCase(0)
Emit == x.op # "none" => PrintT("CASE " \o ToJson(x))
\* reading stops at the first thing that is wrong: what was called before does not depend on what comes after
DesignStops == x.op # "none" =>
    LET st == ReadLines(Start, x.in.main, x.in.exts, x.in.inc) IN
    \A k \in 0..Len(x.in.main) : LET s == ReadLines(Start, SubSeq(x.in.main, 1, k), x.in.exts, x.in.inc) IN
        /\ Len(s.calls) <= Len(st.calls) /\ s.calls = SubSeq(st.calls, 1, Len(s.calls))
        /\ (s.err => s = st) /\ (~st.err => ~s.err)
=============================================================================
