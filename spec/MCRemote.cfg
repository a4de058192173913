SPECIFICATION Spec
INVARIANTS OneSubmission AskOnlyWhileGoing Silence ResultOnlyWhenFinished
PROPERTIES Decided Terminates
CHECK_DEADLOCK FALSE
