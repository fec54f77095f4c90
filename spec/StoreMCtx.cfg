SPECIFICATION Spec
CONSTANTS MaxLog = 2 MaxRev = 2 MaxTx = 2
INVARIANTS LagSound Partition Unique
PROPERTIES AllOrNothing Revisions Checked FreshIds LogNames NoSpuriousRefusal
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
