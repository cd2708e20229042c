------------------------------ MODULE Registry ------------------------------
(* The registry of database dialects (pysqlsync/factory.py) and the schema state of generators (pysqlsync/base.py).
   Every operation is total: an operation that must fail has its error as the result and no effect.  TLC enumerates
   every history up to Depth; each is replayed in the real code, where every result must be the one predicted here.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,       \* dialect names used in the histories
          Bundled,     \* those of them that are bundled with the package, mapped to themselves at the start
          Engines,     \* engines to register
          Gens,        \* generators
          Schemas,     \* sets of tables to create
          Depth,
          Part         \* "registry" or "generators": which operations the histories consist of

VARIABLES reg,         \* registered name -> engine
          gen,         \* generator -> tables it describes, or "none" before it is created
          hist         \* operations with their results

vars == <<reg, gen, hist>>

None == "none"
Log(op, a, b, res) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, res |-> res])

Init == /\ reg = [n \in Bundled |-> n]
        /\ gen = [g \in Gens |-> None]
        /\ hist = <<>>

Register(n, e) ==
    /\ IF n \in DOMAIN reg
       THEN reg' = reg /\ Log("register", n, e, "ValueError")
       ELSE reg' = [m \in DOMAIN reg \cup {n} |-> IF m = n THEN e ELSE reg[m]] /\ Log("register", n, e, "ok")
    /\ UNCHANGED gen

Unregister(n) ==
    /\ IF n \in DOMAIN reg
       THEN reg' = [m \in DOMAIN reg \ {n} |-> reg[m]] /\ Log("unregister", n, "", "ok")
       ELSE reg' = reg /\ Log("unregister", n, "", "error")
    /\ UNCHANGED gen

Get(n) ==
    /\ Log("get", n, "", IF n \in DOMAIN reg THEN reg[n] ELSE "ValueError")
    /\ UNCHANGED <<reg, gen>>

New(g) ==
    /\ gen' = [gen EXCEPT ![g] = ""]
    /\ Log("new", g, "", "")
    /\ UNCHANGED reg

(* creating replaces whatever the generator described before *)
Create(g, s) ==
    /\ gen[g] # None
    /\ gen' = [gen EXCEPT ![g] = s]
    /\ Log("create", g, s, s)
    /\ UNCHANGED reg

Drop(g) ==
    /\ gen[g] # None
    /\ gen' = [gen EXCEPT ![g] = ""]
    /\ Log("drop", g, "", "")
    /\ UNCHANGED reg

Read(g) ==
    /\ gen[g] # None
    /\ Log("read", g, "", gen[g])
    /\ UNCHANGED <<reg, gen>>

RegistryOps == \E n \in Names : (\E e \in Engines : Register(n, e)) \/ Unregister(n) \/ Get(n)
GeneratorOps == \E g \in Gens : New(g) \/ (\E s \in Schemas : Create(g, s)) \/ Drop(g) \/ Read(g)

Next == /\ Len(hist) < Depth
        /\ IF Part = "registry" THEN RegistryOps ELSE GeneratorOps

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties of the design *)
LastRegistered(n, k) ==          \* the engine that history up to k leaves under n, by definition, not by the state
    LET idx == {i \in 1 .. k : hist[i].a = n /\ hist[i].res = "ok" /\ hist[i].op \in {"register", "unregister"}}
    IN IF idx = {} THEN (IF n \in Bundled THEN n ELSE None)
       ELSE LET i == CHOOSE j \in idx : \A h \in idx : h <= j
            IN IF hist[i].op = "register" THEN hist[i].b ELSE None
Exact == Part = "registry" =>
    \A i \in 1 .. Len(hist) : hist[i].op = "get" =>
        hist[i].res = (IF LastRegistered(hist[i].a, i) = None THEN "ValueError" ELSE LastRegistered(hist[i].a, i))
Independent == [][\A g \in Gens : gen'[g] # gen[g] => hist'[Len(hist')].a = g]_vars

(* ------------------------------------------------------------------ output of complete histories *)
Emit == Len(hist) = Depth => PrintT("B|" \o ToJson(hist))
=============================================================================
