SPECIFICATION RSpec
CONSTANT YSets = {0}
INVARIANT ReportInv EmitOk
