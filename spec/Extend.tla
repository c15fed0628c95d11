------------------------------- MODULE Extend -------------------------------
(* The parser of the language with extensions that take directives of their own,
   as a machine that reads a source line by line.  P35. *)
EXTENDS Strs, Lists, FiniteSets
\* a line: [k, name, words, notes, trail]
\*   note: a comment; type: a type definition; ext: a directive that is not of the language;
\*   include: of the other file; stray: a directive of the name of no extension, nor of the language
Join2(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o " " \o b
Named(exts, n) == { i \in 1..Len(exts) : exts[i].name = n }
Start == [types |-> <<>>, note |-> "", about |-> "", calls |-> <<>>, err |-> FALSE]
TypeNamesOf(st) == { st.types[i].name : i \in 1..Len(st.types) }
NoneTwice(st) == Cardinality(TypeNamesOf(st)) = Len(st.types)
IsBase(n) == n \in {"String", "Int32"}
\* what an extension takes of its line: how it reads decides
Takes(ext, line) ==
    CASE ext.how = "line" -> [words |-> line.words, said |-> "", left |-> line.trail, err |-> "bad" \in SeqSet(line.words)]
      [] ext.how = "block" -> [words |-> line.words, said |-> Join(line.notes, " "), left |-> line.trail, err |-> line.open \/ \E i \in 1..Len(line.words) : line.words[i] \in {"7", "="}]
      [] OTHER -> [words |-> <<>>, said |-> "", left |-> line.trail, err |-> FALSE]
\* where a block fails: what was read before
Before(words, bad) == LET I == { i \in 1..Len(words) : words[i] \in bad } IN IF I = {} THEN words ELSE SubSeq(words, 1, FirstIx(I) - 1)
Called(st, ext, line) ==
    LET t == Takes(ext, line) IN
    [st EXCEPT !.calls = Append(@, [name |-> ext.name, note |-> st.note, said |-> t.said,
                                    words |-> IF ext.how = "block" THEN Before(t.words, {"7", "="}) ELSE IF ext.how = "line" /\ t.err THEN Append(Before(t.words, {"bad"}), "bad") ELSE t.words]),
               !.note = t.left, !.err = t.err]
RECURSIVE ReadLines(_, _, _, _)
RECURSIVE ReadLine(_, _, _, _)
ReadLine(st, line, exts, inc) ==
    CASE line.k = "note" -> [st EXCEPT !.note = Join2(@, line.trail)]
      [] line.k = "type" -> [st EXCEPT !.types = Append(@, [name |-> line.name, comment |-> Join2(st.note, line.trail)]), !.note = ""]
      [] line.k = "include" ->
             LET got == ReadLines([Start EXCEPT !.calls = st.calls], inc, exts, <<>>) about == Join2(st.about, st.note) IN
             IF got.err \/ ~NoneTwice(got) \/ ~NoneTwice(st) \/ TypeNamesOf(got) \cap TypeNamesOf(st) # {}
             THEN [st EXCEPT !.calls = got.calls, !.err = TRUE]
             ELSE [st EXCEPT !.calls = got.calls, !.types = @ \o got.types, !.about = about, !.note = line.trail]
      [] line.k = "stray" -> [st EXCEPT !.err = TRUE]
      [] OTHER -> LET I == Named(exts, line.name) IN Called(st, exts[FirstIx(I)], line)
ReadLines(st, lines, exts, inc) ==
    IF lines = <<>> \/ st.err THEN st ELSE ReadLines(ReadLine(st, Head(lines), exts, inc), Tail(lines), exts, inc)
\* all of it: what is called, and what comes of it
Outcome(in) ==
    IF Cardinality({ in.exts[i].name : i \in 1..Len(in.exts) }) < Len(in.exts) THEN [Start EXCEPT !.err = TRUE]
    ELSE LET st == ReadLines(Start, in.main, in.exts, in.inc) IN [st EXCEPT !.err = @ \/ ~NoneTwice(st)]
Invalid(in) == { in.exts[i].name : i \in { j \in 1..Len(in.exts) : in.exts[j].invalid } }
\* the words that an extension was given, call by call
ResultOf(st, name) == LET q == Filter(st.calls, LAMBDA c : c.name = name) IN [i \in 1..Len(q) |-> Join(q[i].words, " ")]
=============================================================================
