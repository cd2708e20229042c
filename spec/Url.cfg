SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS ScannerAgrees PrintedReadsBack Emit
CHECK_DEADLOCK FALSE
