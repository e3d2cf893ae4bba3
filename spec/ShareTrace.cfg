SPECIFICATION SSpec
INVARIANT WorldsOk
INVARIANT Done
CHECK_DEADLOCK FALSE
