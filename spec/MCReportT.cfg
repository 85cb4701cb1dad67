SPECIFICATION RSpec
CONSTANT YSets = {0, 1, 2}
INVARIANT ReportInv EmitOk
