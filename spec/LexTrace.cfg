SPECIFICATION Spec
INVARIANT Conforms
INVARIANT InText
INVARIANT Position
INVARIANT Progress
INVARIANT OneChar
INVARIANT NoSkip
CHECK_DEADLOCK FALSE
