------------------------------- MODULE Sample -------------------------------
(* Random objects of an entity class (pysqlsync/data/generator.py).  A trace is a class, the number of objects asked for
   and the objects generated from some stream of random numbers, or the error.  Large numbers are triples of digits to the
   base 10^9, compared lexicographically.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

Leq(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
Range(f) == {f[i] : i \in DOMAIN f}

(* fields for which there are values to generate *)
Plain == {"bool", "int", "float", "text", "decimal", "datetime", "date", "time", "uuid", "ipv4", "ipv6", "enum", "literal"}
RECURSIVE Possible(_)
Possible(f) ==
    IF f.primary THEN f.kind \in {"int", "uuid"}
    ELSE \/ f.kind \in Plain
         \/ f.kind = "union" /\ \A i \in DOMAIN f.parts : Possible(f.parts[i].field)
         \/ f.kind \in {"list", "struct"} /\ \A i \in DOMAIN f.parts : Possible(f.parts[i].field)

(* a value within a JSON document *)
RECURSIVE Ok(_, _, _)
Within(f, v) == (f.bounded => Leq(f.lo, v.n) /\ Leq(v.n, f.hi))
Ok(f, v, json) ==
    IF v.k = "null" THEN f.nullable /\ ~f.primary
    ELSE CASE f.kind = "bool" -> v.k = "bool"
           [] f.kind = "int" -> v.k = "int" /\ (~f.primary => Within(f, v))
           [] f.kind = "float" -> v.k = "float"
           [] f.kind = "text" -> v.k = "text" /\ f.minlen <= v.len /\ (f.maxlen >= 0 => v.len <= f.maxlen)
           [] f.kind = "decimal" -> IF json THEN v.k = "text" ELSE v.k = "decimal" /\ v.whole <= f.digits - f.places /\ v.frac <= f.places
           [] f.kind \in {"datetime", "date", "time", "uuid", "ipv4", "ipv6"} -> v.k = IF json THEN "text" ELSE f.kind
           [] f.kind \in {"enum", "literal"} -> v.k = (IF f.kind = "enum" /\ ~json THEN "enum" ELSE v.k) /\ v.text \in Range(f.values)
           [] f.kind = "union" -> \E i \in DOMAIN f.parts : Ok(f.parts[i].field, v, json)
           [] f.kind = "struct" -> /\ v.k = "dict" /\ Len(v.items) = Len(f.parts)
                                   /\ \A i \in DOMAIN f.parts : \E j \in DOMAIN v.items : v.items[j].name = f.parts[i].name /\ Ok(f.parts[i].field, v.items[j].value, TRUE)
           [] f.kind = "list" -> /\ v.k = "list"
                                 /\ f.distinct => \A i, j \in DOMAIN v.items : i # j => v.items[i] # v.items[j]
                                 /\ \A j \in DOMAIN v.items : Ok(f.parts[1].field, v.items[j].value, TRUE)
           [] OTHER -> FALSE

VARIABLES tr, k, keys, verdict
vars == <<tr, k, keys, verdict>>
T == Traces[tr]
Keys(obj) == {obj[i] : i \in {i \in DOMAIN T.fields : T.fields[i].field.primary}}

Init == tr \in DOMAIN Traces /\ k = 0 /\ keys = {} /\ verdict = "-"
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Next ==
    /\ verdict = "-" /\ UNCHANGED tr /\ k' = k + 1
    /\ LET possible == \A i \in DOMAIN T.fields : Possible(T.fields[i].field) IN
       IF ~possible \/ T.error
       THEN /\ verdict' = IF possible THEN "error: objects cannot be generated"
                          ELSE IF T.error THEN "OK" ELSE "error: a class whose fields cannot be generated is accepted"
            /\ UNCHANGED keys
       ELSE IF k = Len(T.objects)
       THEN verdict' = (IF Len(T.objects) = T.count THEN "OK" ELSE "count: " \o ToString(Len(T.objects)) \o " objects") /\ UNCHANGED keys
       ELSE LET o == T.objects[k + 1]
                bad == {i \in DOMAIN T.fields : ~Ok(T.fields[i].field, o[i], FALSE)} IN
            /\ keys' = keys \cup Keys(o)
            /\ verdict' = IF bad # {} THEN "value: " \o T.fields[First(bad)].name
                          ELSE IF Keys(o) \cap keys # {} THEN "key: not distinct" ELSE "-"
Spec == Init /\ [][Next]_vars
Emit == verdict = "-" \/ PrintT("V|" \o ToString(tr) \o "|" \o ToString(k) \o "|" \o verdict)
=============================================================================
