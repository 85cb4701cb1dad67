SPECIFICATION Spec
CONSTANTS
 Total = 3
 Most = 4
VIEW View
INVARIANTS InRange Scores Answers Open Correct Emit
PROPERTIES Steps
CHECK_DEADLOCK FALSE
