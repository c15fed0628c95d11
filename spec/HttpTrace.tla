----------------------------- MODULE HttpTrace ------------------------------
(* The HTTP messages written for the examples of a schema.  P24. *)
EXTENDS GoHttp

ReqEx(h) == Cap(h.name) \o "Request"
RespEx(h) == Cap(h.name) \o "Response"
ReqExamples(S, h) == Filter(S.examples, LAMBDA z : z.target = ReqEx(h))
\* the examples of answers to a request of that name: the response, or an exception of the action
Answers(S, h, name) == Filter(S.examples, LAMBDA z : z.name = name /\ z.target # ReqEx(h) /\
                                            (z.target = RespEx(h) \/ \E i \in 1..Len(h.exceptions) : h.exceptions[i].type = z.target))
TraceOk(S) == \A i \in 1..Len(S.http) : \A z \in SeqSet(ReqExamples(S, S.http[i])) :
                 z.example.k = "obj" /\ \A y \in SeqSet(Answers(S, S.http[i], z.name)) : y.target = RespEx(S.http[i]) => y.example.k = "obj"
\* what is shown, in this order
Shown(S) == Concat(SeqMap(S.http, LAMBDA h : SeqMap(ReqExamples(S, h), LAMBDA z : [h |-> h, z |-> z])))

Given1(v, name) == IF name \in ObjKeys(v) /\ ObjGet(v, name).k # "null" THEN <<ObjGet(v, name)>> ELSE <<>>
WrittenAs(v, s) == CASE v.k = "str" -> v.s = s
                    [] v.k = "num" -> IsDecText(s) /\ SameNum(Dec(v.n), Dec(s))
                    [] v.k = "bool" -> s = (IF v.b THEN "true" ELSE "false")
                    [] OTHER -> TRUE                              \* not a text: open
NoText(v) == v.k = "str" /\ v.s = ""
\* a list of parameters as wire pairs: those given, and no others
SameParams(ps, v, wire(_), got, low) ==
    LET want == Filter(ps, LAMBDA p : Given1(v, p.name) # <<>>) IN
    /\ \A p \in SeqSet(want) : LET g == { i \in 1..Len(got) : got[i][1] = (IF low THEN LowStr(wire(p)) ELSE wire(p)) } IN
         IF NoText(Given1(v, p.name)[1]) THEN \A i \in g : got[i][2] = ""
         ELSE Cardinality(g) = 1 /\ \A i \in g : WrittenAs(Given1(v, p.name)[1], got[i][2])
    /\ \A p \in SeqSet(ps) : Given1(v, p.name) = <<>> => \A i \in 1..Len(got) : got[i][1] # (IF low THEN LowStr(wire(p)) ELSE wire(p))
SameBody(ps, v, body) ==
    LET b == BodyOf(ps) IN
    IF b = <<>> \/ Given1(v, b[1].name) = <<>> THEN body = <<>> ELSE body # <<>> /\ SameVal(Given1(v, b[1].name)[1], body[1])
TraceRequest(S, h, z, q) ==
    LET v == z.example
        t == BaseSegs(S.base) \o PathSegs(h.path)
        qs == Filter(h.inputs, LAMBDA p : p.query # "")
        arg(i) == CHOOSE p \in SeqSet(h.inputs) : p.name = VarName(t[i]) IN
    /\ q.method = h.method /\ q.proto = "HTTP/1.1"
    /\ Len(t) = Len(q.segs)
    /\ \A i \in 1..Len(t) : IF ~IsVar(t[i]) THEN t[i] = q.segs[i] ELSE Given1(v, VarName(t[i])) # <<>> => WrittenAs(Given1(v, VarName(t[i]))[1], q.segs[i])
    /\ SameParams(qs, v, LAMBDA p : p.query, q.query, FALSE)
    /\ \A i \in 1..Len(q.query) : \E p \in SeqSet(qs) : p.query = q.query[i][1]
    /\ SameParams(HeadersOf(h.inputs), v, LAMBDA p : p.header, q.headers, TRUE)
    /\ Header(q.headers, "accept") = "application/json"
    /\ SameBody(h.inputs, v, q.body)
Reasons == [c \in {200, 201, 202, 203, 204, 205, 206, 301, 304, 400, 401, 404, 409, 410, 422, 429, 500, 503} |->
              CASE c = 200 -> "OK" [] c = 203 -> "Non-Authoritative Information" [] c = 205 -> "Reset Content" [] c = 206 -> "Partial Content" [] c = 301 -> "Moved Permanently" [] c = 401 -> "Unauthorized" [] c = 410 -> "Gone" [] c = 429 -> "Too Many Requests" [] c = 201 -> "Created" [] c = 202 -> "Accepted" [] c = 204 -> "No Content" [] c = 304 -> "Not Modified" [] c = 400 -> "Bad Request"
                [] c = 404 -> "Not Found" [] c = 409 -> "Conflict" [] c = 422 -> "Unprocessable Entity" [] c = 500 -> "Internal Server Error" [] c = 503 -> "Service Unavailable"]
ResponseIs(r, st, body) ==
    /\ r.status = NatStr(st) /\ r.reason = Reasons[st] /\ r.proto = "HTTP/1.1"
    /\ r.length /\ r.date
    /\ IF st \in NoContent \/ body = <<>> THEN r.body = <<>>
       ELSE r.body # <<>> /\ SameVal(body[1], r.body[1]) /\ HasPrefix(Header(r.headers, "content-type"), "application/json")
TraceAnswer(S, h, y, r) ==
    IF y.target = RespEx(h)
    THEN LET b == BodyOf(Outputs(h)) IN
         /\ ResponseIs(r, ExpectedStatus(h), IF b = <<>> THEN <<>> ELSE Given1(y.example, b[1].name))
         /\ SameParams(HeadersOf(Outputs(h)), y.example, LAMBDA p : p.header, r.headers, TRUE)
    ELSE \E i \in 1..Len(h.exceptions) : h.exceptions[i].type = y.target /\ ResponseIs(r, h.exceptions[i].status, <<y.example>>)
TraceEntry(S, w, e) ==
    /\ e.name = w.z.name /\ e.action = w.h.name
    /\ TraceRequest(S, w.h, w.z, e.req)
    /\ LET a == Answers(S, w.h, w.z.name) IN
       IF a = <<>> THEN e.resp = <<>> ELSE e.resp # <<>> /\ \E y \in SeqSet(a) : TraceAnswer(S, w.h, y, e.resp[1])
=============================================================================
