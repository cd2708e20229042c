-------------------------------- MODULE Url --------------------------------
(* Connection strings (pysqlsync/factory.py get_parameters, pysqlsync/connection.py ConnectionParameters.__str__).
   A string is a sequence of symbols; a symbol is a character that stands for itself ("at", "colon", ...) or a
   percent-encoded one ("%at").  A string is built from left to right out of its components, read by the scanner of
   this module, and the parameters read are printed and read again.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Deep

Delims == {"at", "colon", "slash", "quest", "hash", "percent", "plus", "space", "amp", "equals", "lbrack", "nonascii", "tilde", "semi", "quote", "escaped"}
Chars == {"a", "B"} \cup Delims
(* characters that may stand for themselves in user information and in a path segment (RFC 3986), others are encoded *)
Plain == {"a", "B", "plus", "amp", "equals", "tilde", "semi"}
Enc(c) == "%" \o c
Sym(t) == {[c |-> c, e |-> e] : c \in Chars, e \in BOOLEAN}
Allowed == {s \in Sym(0) : s.e \/ s.c \in Plain}

Texts1 == {<<s>> : s \in Allowed}
Texts2 == {<<s, t>> : s \in Allowed, t \in {x \in Allowed : x.c \in {"a", "percent", "at", "slash", "plus", "escaped"}}}
Texts3 == {<<s, t, u>> : s \in {x \in Allowed : x.c \in {"percent", "slash", "plus"}}, t \in {x \in Allowed : x.c \in {"a", "quest", "colon"}}, u \in {x \in Allowed : x.c \in {"B", "at"}}}
Long == Texts1 \cup Texts2 \cup (IF Deep THEN Texts3 ELSE {})
Short == {<<[c |-> "a", e |-> FALSE]>>, <<[c |-> "at", e |-> TRUE], [c |-> "B", e |-> FALSE]>>}
None == <<>>

Symbols(t) == [i \in DOMAIN t |-> IF t[i].e THEN Enc(t[i].c) ELSE t[i].c]
Decoded(t) == [i \in DOMAIN t |-> t[i].c]

Hosts == {"-", "name", "dotted", "v4", "v6"}
Ports == {"-", "1", "5432", "65535"}
Modes == {"disable", "prefer", "allow", "require", "verify-ca", "verify-full"}
(* a query is a sequence of name, value, encoded? *)
Q(n, v) == [n |-> n, v |-> v]
Queries == {<<>>} \cup {<<Q("ssl", m)>> : m \in Modes} \cup
           {<<Q("ssl", "bogus")>>, <<Q("ssl", "REQUIRE")>>, <<Q("ssl", "verify_ca")>>, <<Q("ssl", "None")>>, <<Q("ssl", "verify")>>, <<Q("ssl", "re")>>, <<Q("ssl", "requires")>>, <<Q("ssl", "true")>>,
            <<Q("ssl", "require"), Q("ssl", "require")>>, <<Q("ssl", "verify-full"), Q("ssl", "disable")>>, <<Q("ssl", "disable"), Q("ssl", "bogus")>>,
            <<Q("timeout", "5")>>, <<Q("timeout", "5"), Q("ssl", "verify-ca")>>, <<Q("ssl", "verify-full"), Q("app", "ssl")>>,
            <<Q("ssl", "require"), Q("timeout", "1"), Q("ssl", "prefer")>>, <<Q("ssl", "verify%-full")>>}

VARIABLES phase,        \* the component to be added next
          p,            \* the components chosen
          url,          \* the symbols written so far
          focus         \* the component whose text is explored in full
vars == <<phase, p, url, focus>>

Schemes == {"postgresql", "mysql", "mssql", "oracle", "my.sql"}
Init == /\ phase = "scheme" /\ url = <<>> /\ p = [scheme |-> "-"]
        /\ focus \in {"user", "password", "database", "query", "none"}

Scheme == /\ phase = "scheme" /\ phase' = "user"
          /\ \E s \in Schemes : /\ focus # "none" => s = "postgresql"
                                /\ p' = [p EXCEPT !.scheme = s] /\ url' = <<s, "://">>
          /\ UNCHANGED focus
Pool(f) == IF focus = f THEN Long \cup {None} ELSE IF focus = "query" THEN {None, <<[c |-> "a", e |-> FALSE]>>} ELSE Short \cup {None}
User == /\ phase = "user" /\ phase' = "password"
        /\ \E t \in Pool("user") : p' = p @@ [user |-> t] /\ url' = url \o Symbols(t)
        /\ UNCHANGED focus
Password == /\ phase = "password" /\ phase' = "host"
            /\ \E t \in Pool("password") :
                 /\ p' = p @@ [password |-> t]
                 /\ url' = IF t = None THEN (IF p.user = None THEN url ELSE Append(url, "at"))
                           ELSE url \o <<"colon">> \o Symbols(t) \o <<"at">>
            /\ UNCHANGED focus
Host == /\ phase = "host" /\ phase' = "database"
        /\ \E h \in Hosts, n \in Ports :
             /\ h = "-" => n = "-"
             /\ focus # "none" => n \in {"-", "5432"} /\ h \in {"-", "dotted", "v6"}
             /\ p' = p @@ [host |-> h, port |-> n]
             /\ url' = url \o (IF h = "-" THEN <<>> ELSE <<"host:" \o h>>) \o (IF n = "-" THEN <<>> ELSE <<"colon", n>>)
        /\ UNCHANGED focus
Database == /\ phase = "database" /\ phase' = "query"
            /\ \E t \in Pool("database") : /\ p' = p @@ [database |-> t]
                                           /\ url' = IF t = None THEN url ELSE url \o <<"slash">> \o Symbols(t)
            /\ UNCHANGED focus
RECURSIVE Written(_)
Written(q) == IF q = <<>> THEN <<>> ELSE <<Head(q).n, "equals", Head(q).v>> \o (IF Len(q) = 1 THEN <<>> ELSE <<"amp">>) \o Written(Tail(q))
Query == /\ phase = "query" /\ phase' = "done"
         /\ \E q \in Queries : /\ focus # "query" => q \in {<<>>, <<Q("ssl", "verify-ca")>>}
                               /\ p' = p @@ [query |-> q]
                               /\ url' = IF q = <<>> THEN url ELSE url \o <<"quest">> \o Written(q)
         /\ UNCHANGED focus
Next == Scheme \/ User \/ Password \/ Host \/ Database \/ Query
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ the meaning of the components *)
Canonical(v) == IF v = "verify%-full" THEN "verify-full" ELSE v
SslValues(q) == SelectSeq(q, LAMBDA x : x.n = "ssl")
Accepted(q) == LET s == SslValues(q) IN Len(s) = 0 \/ (Len(s) = 1 /\ Canonical(s[1].v) \in Modes)
Mode(q) == IF SslValues(q) = <<>> THEN "-" ELSE Canonical(SslValues(q)[1].v)
Meaning == [scheme |-> p.scheme, user |-> Decoded(p.user), password |-> Decoded(p.password), host |-> p.host, port |-> p.port,
            database |-> Decoded(p.database), ssl |-> IF Accepted(p.query) THEN Mode(p.query) ELSE "rejected"]

(* ------------------------------------------------------------------ a scanner, which knows nothing of how the string was built *)
Decode(sym) == IF Len(sym) > 1 /\ SubSeq(sym, 1, 1) = "%" THEN SubSeq(sym, 2, Len(sym)) ELSE sym
DecodeAll(t) == [i \in DOMAIN t |-> Decode(t[i])]
Find(t, c) == IF \E i \in DOMAIN t : t[i] = c THEN CHOOSE i \in DOMAIN t : t[i] = c /\ \A j \in 1 .. i - 1 : t[j] # c ELSE 0
Before(t, c) == IF Find(t, c) = 0 THEN t ELSE SubSeq(t, 1, Find(t, c) - 1)
After(t, c) == IF Find(t, c) = 0 THEN <<>> ELSE SubSeq(t, Find(t, c) + 1, Len(t))
Scan(u) ==
    LET rest == SubSeq(u, 3, Len(u))
        nq == Before(rest, "quest")
        auth == Before(nq, "slash")
        info == IF Find(auth, "at") = 0 THEN <<>> ELSE Before(auth, "at")
        hp == IF Find(auth, "at") = 0 THEN auth ELSE After(auth, "at")
        h == Before(hp, "colon")
        n == After(hp, "colon") IN
    [scheme |-> u[1], user |-> DecodeAll(Before(info, "colon")), password |-> DecodeAll(After(info, "colon")),
     host |-> IF h = <<>> THEN "-" ELSE SubSeq(h[1], 6, Len(h[1])), port |-> IF n = <<>> THEN "-" ELSE n[1],
     database |-> DecodeAll(After(nq, "slash"))]
Same(a, b) == \A f \in {"scheme", "user", "password", "host", "port", "database"} : a[f] = b[f]
ScannerAgrees == phase = "done" => Same(Scan(url), Meaning)

(* ------------------------------------------------------------------ printing: everything encoded, no password, a host always *)
Unreserved == {"a", "B", "tilde"}
EncodeAll(t) == [i \in DOMAIN t |-> IF t[i] \in Unreserved THEN t[i] ELSE Enc(t[i])]
Printed(m) == (IF m.user = <<>> THEN <<>> ELSE EncodeAll(m.user) \o <<"at">>)
            \o <<"host:" \o (IF m.host = "-" THEN "local" ELSE m.host)>> \o (IF m.port = "-" THEN <<>> ELSE <<"colon", m.port>>)
            \o (IF m.database = <<>> THEN <<>> ELSE <<"slash">> \o EncodeAll(m.database))
            \o (IF m.ssl = "-" THEN <<>> ELSE <<"quest", "ssl", "equals", m.ssl>>)
Reread(m) == [m EXCEPT !.password = <<>>, !.host = IF m.host = "-" THEN "local" ELSE m.host]
PrintedReadsBack == phase = "done" /\ Accepted(p.query) => Same(Scan(<<p.scheme, "://">> \o Printed(Meaning)), Reread(Meaning))

Emit == phase = "done" => PrintT("B|" \o ToJson([url |-> url, means |-> Meaning, reread |-> Reread(Meaning)]))
=============================================================================
