------------------------------ MODULE Support -------------------------------
(* The supporting machines: the option store (P10), the file generator (P11)
   and comment layout (P12). *)
EXTENDS Schema

---------------------------------------------------------------------------
(* P10: the state is an abstract value: null, or an object of keys and values *)
RECURSIVE SameVal(_, _)
SameVal(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "null" -> TRUE
         [] a.k = "str" -> a.s = b.s
         [] a.k = "bool" -> a.b = b.b
         [] a.k = "num" -> SameNum(Dec(a.n), Dec(b.n))
         [] a.k = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : SameVal(a.a[i], b.a[i])
         [] a.k = "obj" -> /\ Len(a.o) = Len(b.o) /\ ObjKeys(a) = ObjKeys(b)
                           /\ \A n \in ObjKeys(a) : SameVal(ObjGet(a, n), ObjGet(b, n))
Set(v, n, x) == IF v.k = "obj" /\ n \in ObjKeys(v)
                THEN [v EXCEPT !.o = [i \in 1..Len(v.o) |-> IF v.o[i].n = n THEN Pair(n, x) ELSE v.o[i]]]
                ELSE VObj(Append(IF v.k = "obj" THEN v.o ELSE <<>>, Pair(n, x)))
RECURSIVE At_(_, _)
At_(v, path) == IF path = <<>> THEN v
                ELSE IF v.k = "obj" /\ path[1] \in ObjKeys(v) THEN At_(ObjGet(v, path[1]), Tail(path)) ELSE VNull
RECURSIVE SetAt(_, _, _, _)
SetAt(v, path, n, x) == IF path = <<>> THEN Set(v, n, x) ELSE Set(v, path[1], SetAt(ObjGet(v, path[1]), Tail(path), n, x))
Get(v, path) == IF path = <<>> THEN VNull ELSE At_(v, path)
\* conversions
AsStr(v) == IF v.k = "str" THEN v.s ELSE ""
AsBoolV(v) == CASE v.k = "null" -> FALSE [] v.k = "bool" -> v.b [] v.k = "str" -> v.s # "false" [] OTHER -> TRUE
AsIntText(v) == IF v.k = "num" THEN TruncText(Dec(v.n)) ELSE "0"
SameFloat(v, t) == SameNum(Dec(t), IF v.k = "num" THEN Dec(v.n) ELSE Dec("0"))
\* one step: what the store is afterwards, and whether what was observed is right
\* through text every number is a number
RECURSIVE Loaded(_)
Loaded(v) == CASE v.k = "num" -> VNum(v.n) [] v.k = "str" -> VStr(v.s) [] v.k = "obj" -> VObj([i \in 1..Len(v.o) |-> Pair(v.o[i].n, Loaded(v.o[i].v))]) [] OTHER -> v
\* a number or text as the code itself holds it: an int, a decimal, a pointer
Held(v, t) == IF v.k = "num" THEN [k |-> "num", n |-> v.n, t |-> t] ELSE [k |-> "str", s |-> v.s, t |-> t]
IsHeld(v, T) == "t" \in DOMAIN v /\ v.t \in T
StoreStep(v, s) ==
    CASE s.o \in {"put", "putas"} -> IF v.k \in {"null", "obj"} THEN Set(v, s.key, IF s.o = "put" THEN s.v ELSE Held(s.v, s.t)) ELSE v
      [] s.o = "file" -> Loaded(v)
      [] s.o = "putin" -> IF At_(v, s.path).k = "obj" THEN SetAt(v, s.path, s.key, s.v) ELSE v
      [] s.o = "load" -> s.v
      [] OTHER -> v
RECURSIVE StoreSaw(_, _, _)
StoreSaw(v, s, r) ==
    CASE s.o \in {"put", "putas", "putin", "load", "file"} -> r.st = "ok"
      \* the other number types read a number that was put as an int as they like
      [] s.o \in {"int64", "float", "mint64"} /\ "t" \in DOMAIN Get(v, s.path) -> TRUE
      \* nor is it said what integer a decimal is, or what a pointer to a text is as a boolean
      [] s.o \in {"int", "mint", "cfgint"} /\ IsHeld(Get(v, s.path), {"dec", "decptr"}) -> TRUE
      [] s.o \in {"bool", "mbool", "cfgbool"} /\ IsHeld(Get(v, s.path), {"ptr"}) -> TRUE
      [] s.o \in {"dec", "mdec"} -> LET g == Get(v, s.path) IN SameVal(r.v, IF IsHeld(g, {"dec", "decptr"}) THEN VNum(g.n) ELSE VNull)
      \* all of the texts, or none when there is something else among them
      [] s.o = "mstrs" -> LET g == Get(v, s.path) IN r.q = IF g.k = "arr" /\ \A i \in 1..Len(g.a) : g.a[i].k = "str" THEN [i \in 1..Len(g.a) |-> g.a[i].s] ELSE <<>>
      [] s.o \in {"mstr", "mbool", "mint", "mint64", "marray", "mmap", "mget"} -> StoreSaw(v, [s EXCEPT !.o = From(s.o, 2)], r)
      [] s.o = "get" -> SameVal(r.v, Get(v, s.path))
      [] s.o = "has" -> r.b = (Get(v, s.path).k # "null")
      [] s.o = "str" -> r.s = AsStr(Get(v, s.path))
      [] s.o = "bool" -> r.b = AsBoolV(Get(v, s.path))
      [] s.o \in {"int", "int64"} -> r.s = AsIntText(Get(v, s.path))
      [] s.o = "float" -> SameFloat(Get(v, s.path), r.s)
      [] s.o = "array" -> LET g == Get(v, s.path) IN SameVal(r.v, IF g.k = "arr" THEN g ELSE VArr(<<>>))
      [] s.o = "strs" -> LET g == Get(v, s.path) IN r.q = IF g.k = "arr" THEN [i \in 1..Len(g.a) |-> AsStr(g.a[i])] ELSE <<>>
      [] s.o = "map" -> LET g == Get(v, s.path) IN SameVal(r.v, IF g.k = "obj" THEN g ELSE VObj(<<>>))
      [] s.o = "data" -> SameVal(r.v, Get(v, s.path))
      [] s.o = "isnil" -> r.b = (v.k = "null")
      [] s.o = "json" -> SameVal(r.v, v)          \* what it prints reads back as what it holds
      [] s.o = "cfgstr" -> r.s = IF Get(v, s.path).k = "null" THEN "dflt" ELSE AsStr(Get(v, s.path))
      [] s.o = "cfgbool" -> r.b = IF Get(v, s.path).k = "null" THEN s.d ELSE AsBoolV(Get(v, s.path))
      [] s.o = "cfgint" -> r.s = IF Get(v, s.path).k = "null" THEN "42" ELSE AsIntText(Get(v, s.path))
RECURSIVE StoreRun(_, _, _, _)
StoreRun(v, steps, seen, i) ==     \* 0 when every step is right, else the first that is not
    IF i > Len(steps) THEN 0
    ELSE IF ~StoreSaw(v, steps[i], seen[i]) THEN i
    ELSE StoreRun(StoreStep(v, steps[i]), steps, seen, i + 1)

---------------------------------------------------------------------------
(* P11: a generator: an error that sticks, a buffer, and the files written *)
Gen0(force) == [err |-> FALSE, open |-> FALSE, buf |-> "", files |-> <<>>, force |-> force]
FileNames(g) == { g.files[i][1] : i \in 1..Len(g.files) }
PutFile(g, p, c) == IF p \in FileNames(g)
                    THEN [g EXCEPT !.files = [i \in 1..Len(g.files) |-> IF g.files[i][1] = p THEN <<p, c>> ELSE g.files[i]]]
                    ELSE [g EXCEPT !.files = Append(@, <<p, c>>)]
\* "no" paths have no directory; "full" is a device that takes nothing, and always exists
GenStep(g, s) ==
    CASE s.o = "begin" -> IF g.err THEN g ELSE [g EXCEPT !.open = TRUE, !.buf = ""]
      [] s.o = "emit" -> IF g.err \/ ~g.open THEN g ELSE [g EXCEPT !.buf = @ \o s.s]
      [] s.o = "tmpl" -> IF g.err THEN g
                         ELSE IF s.bad THEN [g EXCEPT !.err = TRUE]
                         ELSE IF g.open THEN [g EXCEPT !.buf = @ \o s.s] ELSE g
      [] s.o = "end" -> g
      [] s.o = "write" -> CASE s.p = "no/f" -> [g EXCEPT !.err = TRUE]
                            [] s.p = "full" -> IF g.force /\ s.s # "" THEN [g EXCEPT !.err = TRUE] ELSE g
                            [] OTHER -> IF s.p \in FileNames(g) /\ ~g.force THEN g ELSE PutFile(g, s.p, s.s)
SetOfFiles(q) == { q[i] : i \in 1..Len(q) }
GenSaw(g, s, r) ==      \* g is the state after the step
    /\ r.err = g.err
    /\ s.o = "end" => r.s = IF g.err \/ ~g.open THEN "" ELSE g.buf
    /\ SetOfFiles(r.files) = SetOfFiles(g.files)
RECURSIVE GenRun_(_, _, _, _)
GenRun_(g, steps, seen, i) ==
    IF i > Len(steps) THEN 0
    ELSE LET h == GenStep(g, steps[i]) IN
         IF GenSaw(h, steps[i], seen[i]) THEN GenRun_(h, steps, seen, i + 1)
         \* after an error a file may also be left alone
         ELSE IF g.err /\ steps[i].o = "write" /\ GenSaw(g, steps[i], seen[i]) THEN GenRun_(g, steps, seen, i + 1)
         ELSE i

---------------------------------------------------------------------------
(* P12: comment layout *)
Lines(text) == LET q == Split(text, "\n") IN IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
RECURSIVE NonBlank(_)
NonBlank(q) == IF q = <<>> THEN <<>> ELSE IF q[1] = "" THEN NonBlank(Tail(q)) ELSE <<q[1]>> \o NonBlank(Tail(q))
FirstWord(s) == LET p == Pos(s, " ") IN IF p = 0 THEN s ELSE UpTo(s, p - 1)
Laid(e) == \* e.in: left, prefix, comment, max, pad
    LET i == e.in
        head == Spaces(i.left) \o i.prefix
        ls == Lines(e.out.text)
        ends == HasSuffix(e.out.text, "\n") IN
    IF Contains(i.comment, "\n")
    THEN ends /\ ls = SeqMap(Split(i.comment, "\n"), LAMBDA l : head \o l)     \* a line each
    ELSE IF i.max <= i.left THEN ends /\ ls = <<head \o i.comment>>                \* no room to wrap
    ELSE LET bare == StripRight(StripLeft(i.prefix, " "), " ")
             padded == i.pad => Len(ls) >= 2 /\ ls[1] = Spaces(i.left) \o bare /\ ls[Len(ls)] = ls[1]
             body == NonBlank(IF i.pad THEN SubSeq(ls, 2, Len(ls) - 1) ELSE ls)
             text == SeqMap(body, LAMBDA l : From(l, Len(head) + 1)) IN
         /\ ends /\ padded
         /\ \A k \in 1..Len(body) : HasPrefix(body[k], head)
         /\ Join(text, " ") = i.comment                                         \* every word, in order
         /\ \A k \in 1..Len(body) : Len(body[k]) <= i.max \/ ~Contains(text[k], " ")
         /\ \A k \in 1..(Len(body) - 1) : Len(body[k]) + 1 + Len(FirstWord(text[k + 1])) > i.max   \* no line is broken early
=============================================================================
