------------------------------- MODULE Exec -------------------------------
(***************************************************************************)
(* What a client asks to be executed, and what reaches the driver.  A trace *)
(* records calls on the real client, the statements (or batches of records  *)
(* for one statement) that reached the driver and how they ended, and how   *)
(* the call returned.  The specification owns the one thing that matters:   *)
(* which statements are still to be run, in which order, and whether one    *)
(* has failed.                                                              *)
(*                                                                          *)
(* Steps: [k |-> "call", op, blank, stmts, recs, wraps]: stmts are the      *)
(*          statements of the script in order; recs is the number of        *)
(*          records; wraps tells if failures have to surface as a query     *)
(*          error                                                           *)
(*        [k |-> "run", s, lo, hi, ok]: a statement reaches the driver, for *)
(*          records lo..hi (0..0 without records)                           *)
(*        [k |-> "ret", err, stmts, cause]                                  *)
(*        [k |-> "open"], [k |-> "commit"]: outside autocommit mode, changes *)
(*          have been made that nobody sees; they are committed              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, call, done, sent, failed, open, verdict
vars == <<tid, l, call, done, sent, failed, open, verdict>>

Steps == Traces[tid].steps
NoCall == [op |-> "none"]

Active == verdict = "" /\ l <= Len(Steps)
Stop(why) == verdict' = why /\ UNCHANGED <<tid, l, call, done, sent, failed, open>>
Go == l' = l + 1 /\ UNCHANGED <<tid, verdict>>

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ verdict = "" /\ call = NoCall /\ done = 0 /\ sent = 0 /\ failed = "" /\ open = FALSE

Call(st) ==
    IF call # NoCall THEN Stop("harness: call within a call")
    ELSE Go /\ call' = st /\ done' = 0 /\ sent' = 0 /\ failed' = "" /\ open' = FALSE

(* A statement without records is run once; one with records as many times  *)
(* as it takes to pass on every record, in order.                           *)
Run(st) ==
    IF call = NoCall THEN Stop("harness: statement outside a call")
    ELSE IF call.blank THEN Stop(call.op \o ": a blank statement reaches the database")
    ELSE IF failed # "" THEN Stop(call.op \o ": a statement is run after one that failed")
    ELSE IF call.recs = 0 /\ call.batched THEN Stop(call.op \o ": a statement is run without records")
    ELSE IF ~call.batched THEN
         IF done >= Len(call.stmts) THEN Stop(call.op \o ": a statement that was not asked for: " \o st.s)
         ELSE IF st.s # call.stmts[done + 1] THEN Stop(call.op \o ": ran " \o st.s \o " instead of " \o call.stmts[done + 1])
         ELSE Go /\ done' = done + 1 /\ failed' = (IF st.ok THEN "" ELSE st.s) /\ UNCHANGED <<call, sent, open>>
    ELSE IF call.stmts # <<>> /\ st.s # call.stmts[1] THEN Stop(call.op \o ": ran " \o st.s \o " instead of " \o call.stmts[1])
    ELSE IF st.lo # sent + 1 \/ st.hi < st.lo \/ st.hi > call.recs THEN Stop(call.op \o ": records " \o ToString(st.lo) \o " to " \o ToString(st.hi) \o " after " \o ToString(sent))
    ELSE Go /\ sent' = st.hi /\ failed' = (IF st.ok THEN "" ELSE st.s) /\ UNCHANGED <<call, done, open>>

Complete == IF call.batched THEN sent = call.recs ELSE done = Len(call.stmts)

Return(st) ==
    IF call = NoCall THEN Stop("harness: return outside a call")
    ELSE IF call.blank THEN
         IF st.err = "value" THEN Go /\ call' = NoCall /\ UNCHANGED <<done, sent, failed, open>>
         ELSE Stop(call.op \o ": a blank statement is not refused: " \o st.err)
    ELSE IF failed = "" THEN
         IF st.err # "none" THEN Stop(call.op \o ": raises without a failure: " \o st.err)
         ELSE IF open THEN Stop(call.op \o ": returns with changes that are not committed")
         ELSE IF ~Complete THEN Stop(call.op \o ": returns before everything has been run")
         ELSE Go /\ call' = NoCall /\ UNCHANGED <<done, sent, failed, open>>
    ELSE IF st.err = "none" THEN Stop(call.op \o ": a failure is swallowed")
    ELSE IF call.wraps /\ st.err # "query" THEN Stop(call.op \o ": a failure does not surface as a query error: " \o st.err)
    ELSE IF call.wraps /\ ~\E i \in 1..Len(st.stmts) : st.stmts[i] = failed THEN Stop(call.op \o ": the query error does not carry the statement that failed")
    ELSE IF ~st.cause THEN Stop(call.op \o ": the error does not carry its cause")
    ELSE Go /\ call' = NoCall /\ UNCHANGED <<done, sent, failed, open>>

Next ==
    \/ /\ Active
       /\ LET st == Steps[l] IN
          CASE st.k = "call" -> Call(st)
            [] st.k = "run"  -> Run(st)
            [] st.k = "ret"  -> Return(st)
            [] st.k = "open"   -> Go /\ open' = TRUE /\ UNCHANGED <<call, done, sent, failed>>
            [] st.k = "commit" -> Go /\ open' = FALSE /\ UNCHANGED <<call, done, sent, failed>>
    \/ /\ verdict = "" /\ l = Len(Steps) + 1
       /\ verdict' = "ok" /\ UNCHANGED <<tid, l, call, done, sent, failed, open>>

Spec == Init /\ [][Next]_vars
Report == verdict # "" => PrintT("V|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o verdict)
=============================================================================
