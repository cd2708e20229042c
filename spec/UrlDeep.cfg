SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS ScannerAgrees PrintedReadsBack Emit
CHECK_DEADLOCK FALSE
