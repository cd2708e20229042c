---------------------------- MODULE Availability ----------------------------
(* Which bundled dialects are usable when third-party modules are missing.  A bundled dialect can always be looked up
   under its own name; using it works iff every module it depends on is there, and otherwise fails naming one that is
   missing.  TLC enumerates the sets of missing modules.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Needs == [postgresql |-> {"asyncpg"}, mysql |-> {"aiomysql", "cryptography"}, mssql |-> {"pyodbc"}, oracle |-> {"oracledb"},
          redshift |-> {"redshift_connector"}, snowflake |-> {"snowflake"}, trino |-> {"aiotrino"}, delta |-> {},
          test |-> {"module_not_found"}]
Dialects == DOMAIN Needs
Modules == UNION {Needs[d] : d \in Dialects}
(* parts of a module that it cannot be loaded without, as in an incomplete installation *)
Parts == [postgresql |-> {"asyncpg.connection"}, mysql |-> {"aiomysql.connection"}, redshift |-> {"redshift_connector.core"}]
NeededBy(d) == Needs[d] \cup (IF d \in DOMAIN Parts THEN Parts[d] ELSE {})
Absent == {"module_not_found"}           \* never installed

VARIABLES hidden, done
Init == hidden \in ({{m} : m \in Modules} \cup {{}, Modules} \cup {{m} : m \in UNION {Parts[d] : d \in DOMAIN Parts}}) /\ done = FALSE
Missing(d) == NeededBy(d) \cap (hidden \cup Absent)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Case == [hidden |-> SeqOf(hidden), expect |-> LET ds == SeqOf(Dialects) IN [i \in 1 .. Len(ds) |-> [dialect |-> ds[i], missing |-> SeqOf(Missing(ds[i]))]]]
Next == ~done /\ done' = TRUE /\ UNCHANGED hidden /\ PrintT("B|" \o ToJson(Case))
Spec == Init /\ [][Next]_<<hidden, done>>
OwnDependencyOnly == \A d, e \in Dialects : d # e /\ hidden \subseteq NeededBy(d) => Missing(e) \subseteq Absent
=============================================================================
