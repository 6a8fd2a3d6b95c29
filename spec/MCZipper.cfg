INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS WF PathExists UpUndoesDown NextPrevInverse DeleteUndoesInsert InsertedThere PutGet Frame MergeLaws
