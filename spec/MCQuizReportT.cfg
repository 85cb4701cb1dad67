SPECIFICATION Spec
CONSTANTS
 Names = {1,2,3,4,5,6,7,8,9}
 Members = {1,2,3,4,5,6,7,8,9,10,11,12}
INVARIANT ReportInv
CHECK_DEADLOCK FALSE
