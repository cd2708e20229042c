------------------------------- MODULE Pairs -------------------------------
(* Every release of a small schema, and every step from one release to the next.

   A release is a record of features of a schema with two namespaces A and B:
     t      table T in A: "no", or the kind of its key: "key" or "auto" (an identity column)
     c      a column of T: "no" or its type (E: enumeration, S, R: structures, l...: array of)
     null, def   whether the column takes NULL, whether it has a default
     con    a unique constraint on the column
     u      table U, in A or in B, or a lookup table: "L" or, with the name of the enumeration, "E"
     ul     initial values of the lookup table
     fk     reference of T to U: "no", "null" (an optional one), "full" (a required one), "look" (column c refers to the lookup table)
     self   T refers to itself
     w      table W in A: "no", "plain", or "ref" (refers to U)
     e      values of enumeration E in A;   eb: the same in B
     s, r   members of structures S and R in A: S may have a member of type R
     td, cd, sd   descriptions of T, of its column, of S
   The releases come in slices, in each of which some features vary together; the steps are all pairs in a slice.
   Emit prints each step, along with what makes it impossible where it is; harness and checks run the real code on it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Slices
VARIABLES slice, cur, nxt, policy

Base == [t |-> "no", c |-> "no", null |-> TRUE, def |-> FALSE, con |-> FALSE, u |-> "no", ul |-> 0, fk |-> "no", self |-> FALSE,
         w |-> "no", e |-> <<>>, eb |-> <<>>, s |-> "no", r |-> "no", td |-> 0, cd |-> 0, sd |-> 0]

(* ------------------------------------------------------------------ which releases make sense *)
Plain == {"i4", "i8", "v40", "v80", "text", "dec"}
WellFormed(x) ==
    /\ x.t = "no" => x.c = "no" /\ x.fk = "no" /\ ~x.self /\ x.td = 0
    /\ x.c = "no" => x.null /\ ~x.def /\ ~x.con /\ x.cd = 0
    /\ x.c \in {"E", "lE"} => x.e # <<>> /\ ~x.con
    /\ x.c \in {"S", "lS"} => x.s # "no"
    /\ x.c = "R" => x.r # "no"
    /\ x.s = "xr" => x.r # "no"
    /\ x.s = "no" => x.sd = 0
    /\ x.def => x.c \notin {"text", "S", "R", "lS", "lE"} /\ ~x.con
    /\ x.con => x.c # "text"
    /\ x.fk \in {"null", "full"} => x.u \in {"A", "B"}
    /\ x.fk = "look" => x.u \in {"L", "E"} /\ x.c = "i4" /\ ~x.def /\ ~x.con
    /\ x.w = "ref" => x.u \in {"A", "B"}
    /\ x.u \notin {"L", "E"} => x.ul = 0
    /\ x.u = "E" => x.e = <<>>                  \* one name, one object

Red == <<"red">>
RedGreen == <<"red", "green">>
GreenRed == <<"green", "red">>
RedBlueGreen == <<"red", "it's", "green">>

Of(S) == {x \in S : WellFormed(x)}
Releases(sl) ==
    CASE sl = "columns" ->
           Of({[Base EXCEPT !.t = "key", !.c = c, !.null = n, !.def = d, !.con = k] :
               c \in Plain \cup {"no"}, n \in BOOLEAN, d \in BOOLEAN, k \in BOOLEAN})
      [] sl = "keys" ->
           Of({[Base EXCEPT !.t = t, !.c = c, !.u = u, !.fk = f] : t \in {"no", "key", "auto"}, c \in {"no", "i8"}, u \in {"no", "A", "B"}, f \in {"no", "null"}})
      [] sl = "enums" ->
           Of({[Base EXCEPT !.t = t, !.c = c, !.null = n, !.def = d, !.e = e] :
               t \in {"no", "key"}, c \in {"no", "E", "lE", "v80"}, n \in BOOLEAN, d \in BOOLEAN, e \in {<<>>, Red, RedGreen, RedBlueGreen, GreenRed}})
      [] sl = "structs" ->
           Of({[Base EXCEPT !.t = t, !.c = c, !.s = s, !.r = r, !.u = u] :
               t \in {"no", "key"}, c \in {"no", "S", "R", "lS"}, s \in {"no", "x", "xyz", "xr"}, r \in {"no", "x", "xy"}, u \in {"no", "A"}})
      [] sl = "references" ->
           Of({[Base EXCEPT !.t = t, !.u = u, !.fk = f, !.self = b, !.w = w] :
               t \in {"no", "key"}, u \in {"no", "A", "B"}, f \in {"no", "null", "full"}, b \in BOOLEAN, w \in {"no", "plain", "ref"}})
      [] sl = "lookups" ->
           Of({[Base EXCEPT !.t = t, !.c = c, !.null = n, !.u = u, !.ul = v, !.fk = f, !.e = e] :
               t \in {"no", "key"}, c \in {"no", "E", "v40", "i4"}, n \in BOOLEAN, u \in {"no", "L", "E"}, v \in {0, 2},
               f \in {"no", "look"}, e \in {<<>>, RedGreen}})
      [] sl = "docs" ->
           Of({[Base EXCEPT !.t = t, !.c = c, !.td = a, !.cd = b, !.s = s, !.sd = k] :
               t \in {"no", "key"}, c \in {"no", "i8", "v40"}, a \in 0 .. 2, b \in 0 .. 2, s \in {"no", "x"}, k \in 0 .. 2})
      [] sl = "policies" ->
           Of({[Base EXCEPT !.t = t, !.u = u, !.fk = f, !.eb = b, !.s = s] :
               t \in {"no", "key"}, u \in {"no", "B"}, f \in {"no", "null"}, b \in {<<>>, Red}, s \in {"no", "x"}})

(* ------------------------------------------------------------------ steps that no script can take *)
Range(q) == {q[i] : i \in 1 .. Len(q)}
ValuesGone(x, y) == x.e # <<>> /\ y.e # <<>> /\ ~(Range(x.e) \subseteq Range(y.e))
ReferenceRedefined(x, y) == \/ x.fk \in {"null", "full"} /\ y.fk \in {"null", "full"} /\ x.u # y.u
                            \/ x.w = "ref" /\ y.w = "ref" /\ x.u # y.u
                            \/ x.fk = "look" /\ y.fk = "look" /\ x.u # y.u
Impossible(x, y) == (IF ValuesGone(x, y) THEN {"value"} ELSE {}) \cup (IF ReferenceRedefined(x, y) THEN {"constraint"} ELSE {})
                    \cup (IF {x.t, y.t} = {"key", "auto"} THEN {"identity"} ELSE {})

Policies(sl) == IF sl = "policies" THEN [{"enum", "struct", "table", "namespace"} -> BOOLEAN] ELSE {[k \in {"enum", "struct", "table", "namespace"} |-> TRUE]}

Init == /\ slice \in Slices
        /\ cur \in Releases(slice)
        /\ nxt = cur
        /\ policy \in Policies(slice)
Release == /\ nxt = cur
           /\ nxt' \in Releases(slice) \ {cur}
           /\ UNCHANGED <<slice, cur, policy>>
Spec == Init /\ [][Release]_<<slice, cur, nxt, policy>>

(* design properties: a step back undoes whatever makes a step impossible only if a value or a definition was lost both ways *)
Sound == WellFormed(cur) /\ WellFormed(nxt)
GrowthIsPossible == (cur # nxt /\ cur.e # <<>> /\ Range(cur.e) \subseteq Range(nxt.e) /\ cur.u = nxt.u /\ cur.t = nxt.t) => Impossible(cur, nxt) = {}
FromNothing == (cur = Base \/ nxt = Base) => Impossible(cur, nxt) = {}
Emit == nxt # cur => PrintT("B|" \o ToJson([slice |-> slice, a |-> cur, b |-> nxt, policy |-> policy, impossible |-> Impossible(cur, nxt)]))
=============================================================================
