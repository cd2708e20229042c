-------------------------------- MODULE Tls --------------------------------
(* Connecting: which attempts are made, over which channel, with which parameters, and how the session ends
   (pysqlsync/connection.py, dialect/*/connection.py, BaseConnection).  The server decides the outcome of each attempt.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Dialects == {"postgresql", "mysql", "mssql", "oracle", "redshift", "trino"}
AlwaysSecure == {"redshift", "trino"}       \* only offer encrypted, verified connections: every mode is given at least what it asks for
Modes == {"none", "disable", "prefer", "allow", "require", "verify-ca", "verify-full"}

(* channels: no encryption; encryption without verification; the certificate verified; the host name as well *)
Plan(d, mode) ==
    CASE d = "trino" -> <<"full">>
      [] d = "redshift" -> <<IF mode = "verify-full" THEN "full" ELSE "ca">>
      [] mode \in {"none", "disable"} -> <<"plain">>
      [] mode = "prefer" -> <<"encrypted", "plain">>
      [] mode = "allow" -> <<"plain", "encrypted">>
      [] mode = "require" -> <<"encrypted">>
      [] mode = "verify-ca" -> <<"ca">>
      [] mode = "verify-full" -> <<"full">>

Fields == {"host", "port", "user", "password", "database"}
(* what the driver receives for a parameter that is not given ("-" stands for nothing) *)
Default(d, f) ==
    CASE d = "mysql" /\ f = "host" -> "localhost"
      [] d = "mysql" /\ f = "port" -> "3306"
      [] d = "mysql" /\ f = "password" -> ""
      [] d = "oracle" /\ f = "host" -> "localhost"
      [] d = "oracle" /\ f = "port" -> "1521"
      [] d = "oracle" /\ f = "database" -> "FREEPDB1"
      [] OTHER -> "-"
(* Redshift is given temporary credentials by the identity service in place of the password *)
Received(d, given) == [f \in Fields |-> IF d = "redshift" /\ f = "password" THEN "-" ELSE IF f \in given THEN "given" ELSE Default(d, f)]

VARIABLES dialect, mode, given, body,       \* the configuration; what the code using the session does
          state,                            \* "connecting", "open", "failed" (no connection), "closed"
          attempts, outcomes,               \* channels tried, what the server did with each
          closes,                           \* how many times the connection was closed
          result                            \* what the caller sees
vars == <<dialect, mode, given, body, state, attempts, outcomes, closes, result>>

Init == /\ dialect \in Dialects /\ mode \in Modes
        /\ given \in SUBSET Fields
        /\ body \in {"normal", "raises"}
        /\ body = "raises" => given = Fields
        (* a host has no default for SQL Server, it is part of the connection string *)
        /\ dialect = "mssql" => "host" \in given
        /\ state = "connecting" /\ attempts = <<>> /\ outcomes = <<>> /\ closes = 0 /\ result = "-"

Attempt(outcome) ==
    /\ state = "connecting"
    /\ outcome # "ok" => given = Fields
    /\ LET k == Len(attempts) + 1 IN
       /\ attempts' = Append(attempts, Plan(dialect, mode)[k])
       /\ outcomes' = Append(outcomes, outcome)
       /\ IF outcome = "ok" THEN state' = "open" /\ result' = "-"
          ELSE IF outcome = "refused" /\ k < Len(Plan(dialect, mode)) THEN state' = "connecting" /\ result' = "-"
          ELSE state' = "failed" /\ result' = outcome          \* the error reaches the caller
    /\ UNCHANGED <<dialect, mode, given, body, closes>>

End == /\ state = "open"
       /\ state' = "closed" /\ closes' = closes + 1
       /\ result' = IF body = "raises" THEN "body error" ELSE "ok"
       /\ UNCHANGED <<dialect, mode, given, body, attempts, outcomes>>

Next == (\E o \in {"ok", "refused", "other"} : Attempt(o)) \/ End
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ the properties of the design *)
Range(s) == {s[i] : i \in 1 .. Len(s)}
Strength == [plain |-> 0, encrypted |-> 1, ca |-> 2, full |-> 3]
Required == [m \in Modes |-> CASE m = "require" -> 1 [] m = "verify-ca" -> 2 [] m = "verify-full" -> 3 [] OTHER -> 0]
NoDowngrade == \A c \in Range(attempts) : Strength[c] >= Required[mode]
NoEncryptionUnasked == dialect \notin AlwaysSecure /\ mode \in {"none", "disable"} => Range(attempts) \subseteq {"plain"}
SecondAttempt == Len(attempts) <= 2 /\ (Len(attempts) = 2 => mode \in {"prefer", "allow"} /\ outcomes[1] = "refused")
ClosedOnce == /\ closes <= 1
              /\ state = "closed" => closes = 1
              /\ state = "failed" => closes = 0
Done == state \in {"closed", "failed"}
Emit == Done => PrintT("B|" \o ToJson([dialect |-> dialect, mode |-> mode, given |-> [f \in Fields |-> f \in given], body |-> body,
                 outcomes |-> outcomes, attempts |-> attempts, receives |-> Received(dialect, given), closes |-> closes, result |-> result]))
=============================================================================
