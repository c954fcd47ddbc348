SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 98, 10}
INVARIANTS InText OneReportPerCharacter OneChar NoSkip EndOnce StackSane ErrorOnlyOnUnderflow Longest
PROPERTIES Forward Progress Terminates
CHECK_DEADLOCK FALSE
