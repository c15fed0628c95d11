---------------------------- MODULE GenProject -----------------------------
(* Histories of exports into one directory. *)
EXTENDS GenJavaHttp, Project
PBase(lang) ==
    IF lang = "java"
    THEN Sometimes(4, "name", {"other", "Big"}) \o Sometimes(5, "package", {"qq", "x.y.zz"}) \o Sometimes(4, "domain", {"d.org", "one"})
         \o Sometimes(5, "model-package", {"mm", "mm.nn"}) \o Sometimes(5, "server-package", {"ss"}) \o Sometimes(5, "client-package", {"cc.dd"})
         \o Sometimes(5, "source", {"src", "a/b"}) \o Sometimes(5, "resource", {"rr"}) \o Sometimes(4, "header", {"// mine\n", "/* (c) \"A\" {{.Name}} %s */\n\n", "\n"})
         \o Sometimes(3, "immutable", {"false"}) \o Sometimes(4, "instants", {"false"}) \o Sometimes(4, "json", {"true"}) \o Sometimes(5, "service-exception", {"true"})
         \o Sometimes(4, "example-implementation", {"true"}) \o Sometimes(6, "lombok", {"true"})
    ELSE Sometimes(3, "name", {"other", "Big"}) \o Sometimes(3, "package", {"qq", "x.y.zz", "main"}) \o Sometimes(4, "runtime", {"true", "false"})
PStepConf(lang, base) ==
    base \o Sometimes(3, "model", {"false", "false", "true"}) \o Sometimes(2, "server", {"true", "true", "false"}) \o Sometimes(2, "client", {"true", "true", "false"})
         \o (IF lang = "java" THEN Sometimes(3, "maven", {"true"}) ELSE <<>>) \o Sometimes(3, "force-overwrite", {"true", "true", "false"})
\* directories above a path
Above(p) == LET q == Split(p, "/") IN { Join(SubSeq(q, 1, i), "/") : i \in 1..Len(q) - 1 }
PBefore(files) ==
    LET k == R(1..9) some == IF files = {} THEN {"x.go"} ELSE files f == R(some) IN
    CASE k <= 2 -> <<>>
      [] k = 3 -> <<[path |-> "notes.txt", kind |-> "file"]>>
      [] k = 4 -> <<[path |-> "pom.xml", kind |-> "file"], [path |-> "lib/Util.java", kind |-> "file"]>>
      [] k = 5 -> <<[path |-> f, kind |-> "file"], [path |-> f \o ".bak", kind |-> "file"]>>
      [] k = 9 -> <<[path |-> f, kind |-> "empty"], [path |-> "empty.txt", kind |-> "empty"]>>
      [] k = 6 -> <<[path |-> f, kind |-> "dir"]>>
      [] k = 7 -> <<[path |-> (IF Above(f) = {} THEN "notes.txt" ELSE R(Above(f))), kind |-> "file"]>>
      [] OTHER -> IF Cardinality(some) < 2 THEN <<>> ELSE LET q == Some(2, some) IN <<[path |-> q[1], kind |-> "file"], [path |-> q[2], kind |-> "file"]>>
Vary(S) == [S EXCEPT !.types = [i \in 1..Len(@) |-> [@[i] EXCEPT !.comment = "another comment"]]]
ProjCase(u) ==
    LET lang == R({"java", "java", "go"})
        S0 == HttpSchema(0)
        S == IF S0.name = "" THEN [S0 EXCEPT !.name = "svc"] ELSE S0
        env == R({[domain |-> "", hostname |-> ""], [domain |-> "vf.example", hostname |-> "box"], [domain |-> "", hostname |-> "box"], [domain |-> "a.b.c", hostname |-> ""]})
        base == PBase(lang)
        n == R({1, 2, 3, 3, 4})
        steps == SeqOf(n, LAMBDA i : [which |-> IF i > 1 /\ Chance(3) THEN 2 ELSE 1, conf |-> PStepConf(lang, IF Chance(5) THEN PBase(lang) ELSE base)]) IN
    [op |-> "gen.project", in |-> [lang |-> lang, schemas |-> <<S, IF Chance(2) THEN Vary(S) ELSE [HttpSchema(0) EXCEPT !.name = S.name]>>, env |-> env,
        before |-> PBefore(PFiles(lang, S, steps[1].conf, env)), steps |-> steps]]
ProjNext == x' = ProjCase(0)
\* nothing that is there is lost, but what is overwritten on request; doing it again changes nothing
DesignSafe == x.op = "gen.project" =>
    LET S == x.in.schemas[1] c == x.in.steps[1].conf
        f == { <<p, "new">> : p \in PFiles(x.in.lang, S, c, x.in.env) }
        d == { <<b.path, IF b.kind = "dir" THEN "dir" ELSE "old">> : b \in SeqSet(x.in.before) } IN
    /\ d \subseteq After(d, f, FALSE) /\ Paths(f) \subseteq Paths(After(d, f, FALSE)) /\ f \subseteq After(d, f, TRUE)
    /\ \A force \in BOOLEAN : LET a == After(d, f, force) IN After(a, f, force) = a /\ Between(d, f, force, a)
=============================================================================
