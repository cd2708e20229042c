SPECIFICATION Spec
INVARIANTS NoDowngrade NoEncryptionUnasked SecondAttempt ClosedOnce Emit
CHECK_DEADLOCK FALSE
