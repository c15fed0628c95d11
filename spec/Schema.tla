------------------------------- MODULE Schema -------------------------------
(* The abstract SADL schema: the state that every part of the system reads.
   All records have all their fields; an option is a sequence of length 0 or 1;
   a map is a sequence of pairs. *)
EXTENDS Num

BaseTypes == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String",
              "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}
NumericTypes == {"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}

TS0 == [type |-> "", pattern |-> "", values |-> <<>>, minsize |-> <<>>, maxsize |-> <<>>, min |-> <<>>, max |-> <<>>,
        items |-> "", keys |-> "", unit |-> "", value |-> "", reference |-> "", fields |-> <<>>, elements |-> <<>>, variants |-> <<>>]
OfType(t) == [TS0 EXCEPT !.type = t]
TD0 == [name |-> "", comment |-> "", annos |-> <<>>, ts |-> TS0]
TypeDef(n, ts) == [TD0 EXCEPT !.name = n, !.ts = ts]
Field0 == [name |-> "", comment |-> "", annos |-> <<>>, required |-> FALSE, default |-> <<>>, ts |-> TS0]
Field(n, ts) == [Field0 EXCEPT !.name = n, !.ts = ts]
Param0 == [name |-> "", comment |-> "", annos |-> <<>>, required |-> FALSE, default |-> <<>>, ts |-> TS0,
           header |-> "", query |-> "", path |-> FALSE]
Elem(s) == [symbol |-> s, comment |-> "", annos |-> <<>>]
Variant(n, t) == [name |-> n, comment |-> "", annos |-> <<>>, type |-> t]
Http0 == [name |-> "", resource |-> "", comment |-> "", annos |-> <<>>, method |-> "GET", path |-> "/", inputs |-> <<>>,
          expected |-> <<>>, exceptions |-> <<>>]
Expect0 == [status |-> 200, comment |-> "", annos |-> <<>>, outputs |-> <<>>]
Exc0 == [type |-> "", status |-> 400, comment |-> "", annos |-> <<>>]
Schema0 == [name |-> "", namespace |-> "", version |-> "", comment |-> "", base |-> "", annos |-> <<>>,
            types |-> <<>>, http |-> <<>>, examples |-> <<>>, operations |-> <<>>]

\* values
VNull == [k |-> "null"]
VStr(s) == [k |-> "str", s |-> s]
VNum(n) == [k |-> "num", n |-> n]
VBool(b) == [k |-> "bool", b |-> b]
VArr(a) == [k |-> "arr", a |-> a]
VObj(o) == [k |-> "obj", o |-> o]
Pair(n, v) == [n |-> n, v |-> v]
ObjKeys(v) == { v.o[i].n : i \in 1..Len(v.o) }
ObjGet(v, n) == v.o[CHOOSE i \in 1..Len(v.o) : v.o[i].n = n].v

\* names
TypeNames(S) == { S.types[i].name : i \in 1..Len(S.types) }
Declared(S, n) == n \in TypeNames(S)
Defined(S, n) == n \in BaseTypes \/ Declared(S, n)
TypeOf(S, n) == IF Declared(S, n) THEN S.types[CHOOSE i \in 1..Len(S.types) : S.types[i].name = n].ts ELSE OfType(n)
HttpNames(S) == { S.http[i].name : i \in 1..Len(S.http) }
HttpOf(S, n) == S.http[CHOOSE i \in 1..Len(S.http) : S.http[i].name = n]
FieldNames(ts) == { ts.fields[i].name : i \in 1..Len(ts.fields) }
FieldOf(ts, n) == ts.fields[CHOOSE i \in 1..Len(ts.fields) : ts.fields[i].name = n]
Symbols(ts) == { ts.elements[i].symbol : i \in 1..Len(ts.elements) }
AnnoGet(annos, k) == IF \E i \in 1..Len(annos) : annos[i][1] = k
                     THEN <<annos[CHOOSE i \in 1..Len(annos) : annos[i][1] = k][2]>> ELSE <<>>
Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
=============================================================================
