------------------------------- MODULE Merge -------------------------------
(* Merging schemas (pysqlsync/formation/object_types.py).  A schema assigns a definition to some of the objects; two
   definitions of the same object are different or the same.  Schemas are merged into others, and objects of a schema
   change in place, in any order.                                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Schemas, Objects, MaxOps, Mutable
Absent == 0
Defs == {Absent, 1, 2}

VARIABLES schema,   \* schema -> object -> definition
          init, ops, states, failed
vars == <<schema, init, ops, states, failed>>

Init == /\ schema \in [Schemas -> [Objects -> Defs]]
        /\ init = schema /\ ops = <<>> /\ states = <<>> /\ failed = FALSE

Conflict(a, b) == \E o \in Objects : a[o] # Absent /\ b[o] # Absent /\ a[o] # b[o]
Union(a, b) == [o \in Objects |-> IF a[o] # Absent THEN a[o] ELSE b[o]]
Log(op) == /\ ops' = Append(ops, op) /\ states' = Append(states, schema') /\ UNCHANGED init
Merge(i, j) ==
    /\ ~failed
    /\ IF Conflict(schema[i], schema[j]) THEN failed' = TRUE /\ UNCHANGED schema
       ELSE failed' = FALSE /\ schema' = [schema EXCEPT ![i] = Union(schema[i], schema[j])]
    /\ Log(<<"merge", i, j>>)
(* an object is changed into its other definition *)
Change(i, o) ==
    /\ ~failed /\ Mutable /\ schema[i][o] # Absent
    /\ Len(ops) > 0 /\ ops[Len(ops)][1] = "merge"
    /\ schema' = [schema EXCEPT ![i][o] = 3 - schema[i][o]]
    /\ Log(<<"change", i, o>>) /\ UNCHANGED failed
Next == /\ Len(ops) < MaxOps
        /\ \/ \E i, j \in Schemas : Merge(i, j)
           \/ \E i \in Schemas, o \in Objects : Change(i, o)
Spec == Init /\ [][Next]_vars

(* merging a schema with itself, with one it includes, or with an empty one changes nothing *)
Includes(a, b) == \A o \in Objects : b[o] # Absent => a[o] = b[o]
Idempotent == \A i, j \in Schemas : Includes(schema[i], schema[j]) => (~Conflict(schema[i], schema[j]) /\ Union(schema[i], schema[j]) = schema[i])
Symmetric == \A i, j \in Schemas : /\ Conflict(schema[i], schema[j]) = Conflict(schema[j], schema[i])
                                   /\ ~Conflict(schema[i], schema[j]) => Union(schema[i], schema[j]) = Union(schema[j], schema[i])
Associative == \A i, j, k \in Schemas :
    LET c(a, b, d) == Conflict(a, b) \/ Conflict(Union(a, b), d) IN
    /\ c(schema[i], schema[j], schema[k]) = c(schema[j], schema[k], schema[i])
    /\ ~c(schema[i], schema[j], schema[k]) => Union(Union(schema[i], schema[j]), schema[k]) = Union(Union(schema[j], schema[k]), schema[i])

Done == failed \/ Len(ops) = MaxOps
Emit == Done => PrintT("B|" \o ToJson([init |-> init, ops |-> ops, states |-> states, failed |-> failed]))
=============================================================================
