SPECIFICATION Spec
CONSTANTS MaxLog = 3 MaxRev = 2 MaxTx = 1
INVARIANTS LagSound Partition Unique
PROPERTIES AllOrNothing Revisions Checked FreshIds LogNames NoSpuriousRefusal
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
