SPECIFICATION Spec
CONSTANTS
 Total = 2
 Most = 3
VIEW View
INVARIANTS InRange Scores Answers Open Correct Emit
PROPERTIES Steps
CHECK_DEADLOCK FALSE
