------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Records on their way from a source to the database: read one by one,     *)
(* possibly reduced to some fields, possibly with fields transformed, and   *)
(* passed on in batches.  The state is what has been read and what has been *)
(* passed on.  A trace has                                                  *)
(*   n      number of records of the source                                 *)
(*   limit  largest batch allowed                                           *)
(*   cols   for each field delivered, [src, fn]: which field of a source     *)
(*          record it is, and how it is transformed                          *)
(*   fails  true if the source fails after its last record                  *)
(*   recs   the records as sequences of cells; empty if contents are given   *)
(*          by position alone (long sources)                                 *)
(* Steps: [k |-> "read", lo, hi]   records lo..hi leave the source           *)
(*        [k |-> "send", lo, hi, rows]  a batch                              *)
(*        [k |-> "ids", pairs]     what the lookup table answers             *)
(*        [k |-> "ret", err]                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, read, sent, ids, verdict
vars == <<tid, l, read, sent, ids, verdict>>

T == Traces[tid]
Steps == T.steps

Active == verdict = "" /\ l <= Len(Steps)
Stop(why) == verdict' = why /\ UNCHANGED <<tid, l, read, sent, ids>>
Go == l' = l + 1 /\ UNCHANGED <<tid, verdict>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ verdict = "" /\ read = 0 /\ sent = 0 /\ ids = {}

(* A cell is a string: "N" for NULL, a letter for the type and the value.    *)
Cell(c, fn) ==
    IF c = "N" THEN "N"
    ELSE CASE fn = "same"  -> c
           [] fn = "bytes" -> "y:" \o SubSeq(c, 3, Len(c))
           [] fn = "id"    -> LET p == {x \in ids : "s:" \o x[1] = c}
                              IN  IF Cardinality(p) = 1 THEN "i:" \o ToString((CHOOSE x \in p : TRUE)[2]) ELSE "?"

Row(i) == [j \in 1..Len(T.cols) |-> Cell(T.recs[i][T.cols[j].src], T.cols[j].fn)]

Read(st) ==
    IF st.lo # read + 1 \/ st.hi < st.lo \/ st.hi > T.n THEN Stop("source: records " \o ToString(st.lo) \o " to " \o ToString(st.hi) \o " are read after " \o ToString(read))
    ELSE Go /\ read' = st.hi /\ UNCHANGED <<sent, ids>>

Send(st) ==
    LET size == IF st.rows = <<>> THEN st.hi - st.lo + 1 ELSE Len(st.rows)
    IN  IF st.hi < st.lo /\ st.rows = <<>> THEN Stop("batch: empty")
        ELSE IF size > T.limit THEN Stop("batch: " \o ToString(size) \o " records exceed " \o ToString(T.limit))
        ELSE IF sent + size > read THEN Stop("batch: more records than have been read")
        ELSE IF st.rows = <<>> THEN
             IF st.lo # sent + 1 THEN Stop("batch: records " \o ToString(st.lo) \o " to " \o ToString(st.hi) \o " after " \o ToString(sent))
             ELSE Go /\ sent' = st.hi /\ UNCHANGED <<read, ids>>
        ELSE LET bad == {i \in 1..size : st.rows[i] # Row(sent + i)}
             IN  IF bad = {} THEN Go /\ sent' = sent + size /\ UNCHANGED <<read, ids>>
                 ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                      IN  Stop("batch: record " \o ToString(sent + i) \o " arrives as " \o ToString(st.rows[i]) \o " instead of " \o ToString(Row(sent + i)))

Ids(st) == Go /\ ids' = {<<p[1], p[2]>> : p \in {st.pairs[i] : i \in 1..Len(st.pairs)}} /\ UNCHANGED <<read, sent>>

Return(st) ==
    IF T.fails /\ read = T.n THEN
         IF st.err = "source" THEN Go /\ UNCHANGED <<read, sent, ids>>
         ELSE Stop("source: its failure is not reported: " \o st.err)
    ELSE IF st.err # "" THEN Stop("raises " \o st.err)
    ELSE IF read # T.n THEN Stop("source: " \o ToString(read) \o " records are read of " \o ToString(T.n))
    ELSE IF sent # T.n THEN Stop("batch: " \o ToString(sent) \o " records are passed on of " \o ToString(T.n))
    ELSE Go /\ UNCHANGED <<read, sent, ids>>

Next ==
    \/ /\ Active
       /\ LET st == Steps[l] IN
          CASE st.k = "read" -> Read(st)
            [] st.k = "send" -> Send(st)
            [] st.k = "ids"  -> Ids(st)
            [] st.k = "ret"  -> Return(st)
    \/ /\ verdict = "" /\ l = Len(Steps) + 1
       /\ verdict' = "ok" /\ UNCHANGED <<tid, l, read, sent, ids>>

Spec == Init /\ [][Next]_vars
Report == verdict # "" => PrintT("V|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o verdict)
=============================================================================
