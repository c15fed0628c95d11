------------------------------ MODULE Project ------------------------------
(* A directory and the exports of Go and Java code into it: which files an
   export writes, where, and what becomes of what is there.  P34.
   The state is the directory: a set of <<path, text>>, with "dir" for the text
   of a directory that stands where a file would be. *)
EXTENDS JavaHttp
Paths(d) == { f[1] : f \in d }
Ask(conf, k, d) == Option(conf, k, d)
PForce(conf) == Ask(conf, "force-overwrite", FALSE)
RevDots(s) == LET q == Split(s, ".") IN Join([i \in 1..Len(q) |-> q[Len(q) + 1 - i]], ".")
\* the domain of the project, and the package of its code
PDomain(S, conf, env) ==
    LET d == Opt(AnnoGet(conf, "domain"), "") IN
    IF d # "" THEN d ELSE IF S.namespace # "" THEN RevDots(S.namespace) ELSE IF env.domain # "" THEN env.domain ELSE IF env.hostname # "" THEN env.hostname ELSE "example"
PPkg(S, conf, env) == LET p == Opt(AnnoGet(conf, "package"), "") IN IF p # "" THEN p ELSE RevDots(PDomain(S, conf, env))
WithPkg(S, conf, env) == Append(Filter(conf, LAMBDA c : c[1] # "package"), <<"package", PPkg(S, conf, env)>>)
\* the files of an export, and those it may add for its own use
JavaFiles(S, conf0, env) ==
    LET conf == WithPkg(S, conf0, env) IN
    (JHttpFiles(S, conf) \ (IF Ask(conf, "model", TRUE) THEN {} ELSE JModelFiles(S, conf)))
    \cup (IF Ask(conf, "maven", FALSE) THEN {"pom.xml"} ELSE {})
GoFiles(S, conf) == { GoFile(S, conf, k) : k \in { w \in {"model", "server", "client"} : Ask(conf, w, w = "model") } }
PFiles(lang, S, conf, env) == IF lang = "java" THEN JavaFiles(S, conf, env) ELSE GoFiles(S, conf)
PHelpers(lang, S, conf, env) == IF lang = "java" /\ Ask(conf, "model", TRUE) THEN JHelpers(S, WithPkg(S, conf, env)) ELSE {}
\* the package that a file says it is of
PkgSaid(lang, S, conf, path) ==
    IF lang = "go" THEN GoPkgName(S, conf)
    ELSE LET q == Split(From(path, Len(JSource(conf)) + 2), "/") IN Join(SubSeq(q, 1, Len(q) - 1), ".")
\* directories that an export makes
PDirs(lang, S, conf, env) == {IF lang = "java" THEN JSource(conf) \o "/" \o Replace(PPkg(S, conf, env), ".", "/") ELSE Replace(GoPkg(S, conf), ".", "/")}

---------------------------------------------------------------------------
(* an export of the files f into the directory d *)
Kept(d, f, force) == IF force THEN {} ELSE Paths(f) \cap Paths(d)
Written(d, f, force) == { g \in f : g[1] \notin Kept(d, f, force) }
After(d, f, force) == LET w == Written(d, f, force) IN w \cup { g \in d : g[1] \notin Paths(w) }
\* a file where a directory has to be, or a directory where a file has to be
Within(path, dir) == HasPrefix(path, dir \o "/")
Blocked(d, f, dirs, force) ==
    \/ \E g \in d : g[2] # "dir" /\ \E p \in Paths(f) \cup dirs : Within(p, g[1]) \/ (p = g[1] /\ p \in dirs)
    \/ force /\ \E g \in d : g[2] = "dir" /\ g[1] \in Paths(f)
\* an export that ends early leaves each file as it was or as it is to be
Between(d, f, force, d2) == d2 \subseteq (d \cup f) /\ Paths(d) \subseteq Paths(d2) /\ (~force => d \subseteq d2)

---------------------------------------------------------------------------
(* the Maven project *)
Resolved(pom, v) == IF HasPrefix(v, "${") THEN Opt(AnnoGet(pom.props, SubSeq(v, 3, Len(v) - 1)), "") ELSE v
Jersey(dep) == HasPrefix(dep.group, "org.glassfish.jersey")
Artifacts == {"jersey-container-jetty-http", "jersey-hk2", "jersey-media-json-jackson", "jersey-common", "activation", "jaxb-api"}
PomOk(pom, S, conf, env) ==
    /\ pom.bad = "" /\ pom.model = "4.0.0" /\ pom.group = PDomain(S, conf, env) /\ pom.artifact = GoService(S, conf) /\ pom.name = GoService(S, conf)
    /\ pom.packaging = "jar" /\ pom.version # "" /\ Resolved(pom, pom.main) = "Main"
    /\ { pom.deps[i].artifact : i \in 1..Len(pom.deps) } = Artifacts \cup (IF Ask(conf, "lombok", FALSE) THEN {"lombok"} ELSE {})
    /\ Cardinality({ <<pom.deps[i].group, pom.deps[i].artifact>> : i \in 1..Len(pom.deps) }) = Len(pom.deps)
    /\ \A i \in 1..Len(pom.deps) : Resolved(pom, pom.deps[i].version) # "" \/
         (Jersey(pom.deps[i]) /\ \E j \in 1..Len(pom.managed) : LET b == pom.managed[j] IN Jersey(b) /\ b.artifact = "jersey-bom" /\ b.type = "pom" /\ b.scope = "import" /\ Resolved(pom, b.version) # "")
=============================================================================
